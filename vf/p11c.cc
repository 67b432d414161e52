#include "red.h"
namespace vf {
// a random Set with its colouring
struct RSet { Set set; std::vector<int> col; int n; std::string name; };
static void draw_set(Case& c, RSet& r) {
  int V = geo().vol; r.col.resize(V); int kind = (int)c.below(5);
  if (kind == 0) { int mu = (int)c.below(Nd); r.n = geo().L[mu]; for (int l = 0; l < V; ++l) { int x[Nd]; coord_of(l, x); r.col[l] = x[mu]; } r.name = "slices of direction " + std::to_string(mu); }
  else if (kind == 1) { r.n = 1 + (int)c.below(3); for (auto& x : r.col) x = 0; r.name = "one colour of " + std::to_string(r.n); }
  else { uint64_t sd = c.seed(); r.n = 1 + (int)c.below(9); for (int l = 0; l < V; ++l) r.col[l] = (int)(site_hash(sd, l) % r.n); r.name = "hash " + std::to_string(sd) + "%" + std::to_string(r.n); }
  auto col = r.col; r.set.make(FnSet([col](const Coord& x) { return col[lex_of(x)]; }, r.n)); c.note(r.name);
}
template <class Q> void fillx(Case& c, Q& q, bool exact, int deg) { if (exact) fill_int(c, q, bound_for<Q>(deg)); else fill(c, q); }
template <class A, class F> void summulti(Case& c, F f, int deg) {
  RSet s; draw_set(c, s); bool exact = c.chance(1, 2); A a, b; fillx(c, a, exact, deg); fillx(c, b, exact, deg);
  Ref ra = load(a), rb_ = load(b), e = f(ra, rb_);
  auto got = sumMulti(f(a, b), s.set); auto total = sum(f(a, b));
  VF_CHECK(c, got.size() == s.n, "size", "sumMulti returned " << got.size() << " entries for " << s.n << " subsets");
  typedef typename std::decay<decltype(got[0])>::type Q;
  double eps = exact && is_sum_word<Q>::dbl ? 0 : std::max(eps_of<typename Words<Q>::type>(), eps_of<typename Words<A>::type>());
  Ref all_(std::vector<Ten>{mapt(e.s[0], [](Num) { return Num(); })});
  for (int k = 0; k < s.n; ++k) {
    std::vector<char> in(geo().vol); int cnt = 0; for (int l = 0; l < geo().vol; ++l) cnt += in[l] = s.col[l] == k;
    Ref w = e.s.size() == 1 ? e : sumref(e, &in); if (e.s.size() > 1) all_ = all_ + w;
    compare(c, got[k], w, nullptr, "sumMulti entry " + std::to_string(k) + " (" + std::to_string(cnt) + " sites)", eps);
  }
  if (e.s.size() > 1) compare(c, total, all_, nullptr, "sum against the entries of sumMulti", eps);
  c.nontrivial(s.n > 1);
}
#define SM(A, DEG, ...) VF_TEST("sumMulti " #A ": " #__VA_ARGS__) { summulti<A>(c, [](auto& a, auto& b) { (void)b; return __VA_ARGS__; }, DEG); }
SM(R, LIN, 1.0 * a) SM(C, LIN, a + b) SM(M, LIN, a - b) SM(M, QUAD, trace(a * b)) SM(F, QUAD, localInnerProduct(a, b)) SM(P, QUAD, trace(adj(a) * b)) SM(P, LIN, adj(a)) SM(RD, LIN, a + b) SM(CD, QUAD, conj(a) * b) SM(F, LIN, a + b) SM(FD, QUAD, localNorm2(a)) SM(V, LIN, -a) SM(S, QUAD, a * b)
SM(sR, LIN, a + b) SM(sM, QUAD, a * b) SM(sC, LIN, a - b)
template <class A> void summulti_obj(Case& c) {
  RSet s; draw_set(c, s); bool exact = c.chance(1, 2); A a; fillx(c, a, exact, LIN); Ref e = load(a);
  auto got = sumMulti(a, s.set); typedef typename std::decay<decltype(got[0])>::type Q;
  double eps = exact && is_sum_word<Q>::dbl ? 0 : std::max(eps_of<typename Words<Q>::type>(), eps_of<typename Words<A>::type>());
  VF_CHECK(c, got.size() == s.n, "size", "sumMulti returned " << got.size() << " entries for " << s.n << " subsets");
  for (int k = 0; k < s.n; ++k) { std::vector<char> in(geo().vol); for (int l = 0; l < geo().vol; ++l) in[l] = s.col[l] == k; compare(c, got[k], e.s.size() == 1 ? e : sumref(e, &in), nullptr, "sumMulti entry " + std::to_string(k), eps); }
  c.nontrivial(s.n > 1);
}
VF_TEST("sumMulti of R") { summulti_obj<R>(c); } VF_TEST("sumMulti of C") { summulti_obj<C>(c); } VF_TEST("sumMulti of M") { summulti_obj<M>(c); } VF_TEST("sumMulti of P") { summulti_obj<P>(c); } VF_TEST("sumMulti of F") { summulti_obj<F>(c); } VF_TEST("sumMulti of CD") { summulti_obj<CD>(c); } VF_TEST("sumMulti of scalar C") { summulti_obj<sC>(c); } VF_TEST("sumMulti of X") { summulti_obj<X>(c); }
template <class A> void summulti_arr(Case& c) {
  RSet s; draw_set(c, s); int n = (int)c.below(4); c.note("array of " + std::to_string(n)); bool exact = c.chance(1, 2); multi1d<A> a(n); std::vector<Ref> e;
  for (int i = 0; i < n; ++i) { fillx(c, a[i], exact, LIN); e.push_back(load(a[i])); }
  auto got = sumMulti(a, s.set); typedef typename std::decay<decltype(got(0, 0))>::type Q;
  VF_CHECK(c, got.size2() == n && got.size1() == s.n, "size", "sumMulti of an array of " << n << " over " << s.n << " subsets has sizes " << got.size2() << "," << got.size1());
  double eps = exact && is_sum_word<Q>::dbl ? 0 : std::max(eps_of<typename Words<Q>::type>(), eps_of<typename Words<A>::type>());
  for (int i = 0; i < n; ++i) for (int k = 0; k < s.n; ++k) { std::vector<char> in(geo().vol); for (int l = 0; l < geo().vol; ++l) in[l] = s.col[l] == k; compare(c, got(i, k), e[i].s.size() == 1 ? e[i] : sumref(e[i], &in), nullptr, "sumMulti array entry " + std::to_string(i) + " subset " + std::to_string(k), eps); }
  c.nontrivial(n && s.n > 1);
}
VF_TEST("sumMulti of array of R") { summulti_arr<R>(c); } VF_TEST("sumMulti of array of C") { summulti_arr<C>(c); } VF_TEST("sumMulti of array of M") { summulti_arr<M>(c); } VF_TEST("sumMulti of array of F") { summulti_arr<F>(c); } VF_TEST("sumMulti of array of scalars") { summulti_arr<sC>(c); } VF_TEST("sumMulti of array of scalar M") { summulti_arr<sM>(c); } VF_TEST("sumMulti of array of CD") { summulti_arr<CD>(c); }

// arrays of fields
template <class A, class B> void arrays(Case& c) {
  Sub sub = whole(); bool mode = c.chance(2, 3); if (mode) { sub = draw_subset(c); c.note("on " + sub.name); }
  int n = (int)c.below(5); c.note("array of " + std::to_string(n)); bool exact = c.chance(1, 2);
  multi1d<A> a(n); multi1d<B> b(n); RRed rr{mode ? &sub.in : nullptr}; Ref en(std::vector<Ten>{Ten()}), ei = en, er = en;
  int64_t bd = std::min(bound_for<A>(QUAD), bound_for<B>(QUAD));
  for (int i = 0; i < n; ++i) { if (exact) { fill_int(c, a[i], bd); fill_int(c, b[i], bd); } else { fill(c, a[i]); fill(c, b[i]); } Ref x = load(a[i]), y = load(b[i]); en = en + rr.norm2(x); ei = ei + rr.ip(x, y); er = er + rr.ipr(x, y); }
  int op = (int)c.below(3); double eps = exact ? 0 : coarse<A, B>(); std::string w = mode ? " on a subset" : "";
  if (op == 0) { auto g = mode ? norm2(a, sub.s) : norm2(a); typedef decltype(g) Q; compare(c, g, en, nullptr, "norm2(array)" + w, is_sum_word<Q>::dbl ? eps : coarse<A>(), 64, "norm2"); }
  else if (op == 1) { auto g = mode ? innerProduct(a, b, sub.s) : innerProduct(a, b); typedef decltype(g) Q; compare(c, g, ei, nullptr, "innerProduct(array)" + w, is_sum_word<Q>::dbl ? eps : coarse<A>(), 64, "innerProduct"); }
  else { auto g = mode ? innerProductReal(a, b, sub.s) : innerProductReal(a, b); typedef decltype(g) Q; compare(c, g, er, nullptr, "innerProductReal(array)" + w, is_sum_word<Q>::dbl ? eps : coarse<A>(), 64, "innerProductReal"); }
  c.nontrivial(n && sub.count);
}
VF_TEST("arrays F") { arrays<F, F>(c); } VF_TEST("arrays M") { arrays<M, M>(c); } VF_TEST("arrays C") { arrays<C, C>(c); } VF_TEST("arrays FD") { arrays<FD, FD>(c); } VF_TEST("arrays P") { arrays<P, P>(c); } VF_TEST("arrays V") { arrays<V, V>(c); } VF_TEST("arrays R") { arrays<R, R>(c); } VF_TEST("arrays F,FD") { arrays<F, FD>(c); } VF_TEST("arrays X") { arrays<X, X>(c); } VF_TEST("arrays MD") { arrays<MD, MD>(c); }
VF_TEST("arrays of scalar M") { arrays<sM, sM>(c); } VF_TEST("arrays of scalar F") { arrays<sF, sF>(c); } VF_TEST("arrays of scalar C") { arrays<sC, sC>(c); }

// owning sub-lattices
template <class A> void owning_red(Case& c) {
  Sub sub = draw_subset(c); c.note("owning on " + sub.name); bool exact = c.chance(1, 2); A a, b; 
  if (exact) { fill_int(c, a, bound_for<A>(QUAD)); fill_int(c, b, bound_for<A>(QUAD)); } else { fill(c, a); fill(c, b); }
  typedef typename Obj<A>::elem T; OSubLattice<T> o(sub.s, a); Ref x = load(a), y = load(b); RRed rr{&sub.in};
  auto want = [&](auto got, Ref e, const char* w) { typedef decltype(got) Q; double eps = exact && is_sum_word<Q>::dbl ? 0 : std::max(eps_of<typename Words<Q>::type>(), eps_of<typename Words<A>::type>()); compare(c, got, e, nullptr, w, eps); };
  if constexpr (Dim<T>::cplx && (Dim<T>::cc == 1)) { want(innerProduct(o, b), rr.ip(x, y), "innerProduct(sub, field)"); want(innerProduct(b, o), rr.ip(y, x), "innerProduct(field, sub)"); }
  want(sum(o), rr.sum(x), "sum(sub)");
  c.nontrivial(sub.count);
}
VF_TEST("owning F") { owning_red<F>(c); } VF_TEST("owning C") { owning_red<C>(c); } VF_TEST("owning V") { owning_red<V>(c); } VF_TEST("owning M") { owning_red<M>(c); } VF_TEST("owning R") { owning_red<R>(c); } VF_TEST("owning P") { owning_red<P>(c); } VF_TEST("owning FD") { owning_red<FD>(c); } VF_TEST("owning X") { owning_red<X>(c); }

// extremes
template <class A> void extremes(Case& c) {
  A a; typedef typename Words<A>::type W; int kind = (int)c.below(5); uint64_t sd = c.seed(); int V = geo().vol, at = (int)c.below(V); c.note("kind " + std::to_string(kind));
  for (int l = 0; l < V; ++l) { uint64_t h = site_hash(sd, l); double u = (h >> 11) * (1.0 / 9007199254740992.0);
    W v = kind == 0 ? (W)(u * 2000 - 1000) : kind == 1 ? (W)(-1 - u * 100) : kind == 2 ? (W)(1 + u * 100) : kind == 3 ? (W)7 : (W)(h % 3);
    if (kind == 3 && l == at) v = (sd & 1) ? (W)8 : (W)-8;
    Obj<A>::at(a, l).elem().elem().elem() = v; }
  W mx = Obj<A>::at(a, 0).elem().elem().elem(), mn = mx, mxs = (W)(mx * 2), mns = mxs;
  for (int l = 0; l < V; ++l) { W v = Obj<A>::at(a, l).elem().elem().elem(); mx = std::max(mx, v); mn = std::min(mn, v); W d = (W)(2 * v); mxs = std::max(mxs, d); mns = std::min(mns, d); }
  auto g = [&](auto x) { return (double)x.elem().elem().elem().elem(); };
  VF_CHECK(c, g(globalMax(a)) == (double)mx, "max", "globalMax gave " << g(globalMax(a)) << " instead of " << (double)mx);
  VF_CHECK(c, g(globalMin(a)) == (double)mn, "min", "globalMin gave " << g(globalMin(a)) << " instead of " << (double)mn);
  VF_CHECK(c, g(globalMax(a + a)) == (double)mxs, "max", "globalMax(a+a) gave " << g(globalMax(a + a)) << " instead of " << (double)mxs);
  VF_CHECK(c, g(globalMin(a + a)) == (double)mns, "min", "globalMin(a+a) gave " << g(globalMin(a + a)) << " instead of " << (double)mns);
  VF_CHECK(c, g(globalMax(-a)) == -(double)mn, "max", "globalMax(-a)"); VF_CHECK(c, g(globalMin(-a)) == -(double)mx, "min", "globalMin(-a)");
  c.nontrivial(V > 1);
}
VF_TEST("extremes R", 2) { extremes<R>(c); } VF_TEST("extremes RD", 2) { extremes<RD>(c); } VF_TEST("extremes I", 2) { extremes<LatticeInteger>(c); }
VF_TEST("extremes of scalars") { double v = (double)c.range(-1000, 1000) / 7; Real r(v); Integer i((int)c.range(-1000, 1000)); VF_CHECK(c, toFloat(Real32(globalMax(r))) == (float)v && toFloat(Real32(globalMin(r))) == (float)v, "scalar", "globalMax/Min of a scalar"); VF_CHECK(c, toBool(globalMax(i) == i) && toBool(globalMin(i + i) == i + i), "scalar", "globalMax/Min of an integer"); c.nontrivial(); }
}
