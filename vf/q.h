// QDP++ side of the harness: geometry, subsets, raw component access.
#ifndef VF_Q_H
#define VF_Q_H
#include "qdp.h"
#ifdef VF_AGG                             // the optional fused spin kernels
#include "scalarsite_generic/generic_mv_switchbox.h"
#include "scalarsite_generic/generic_spin_proj_inlines.h"
#include "scalarsite_generic/generic_spin_recon_inlines.h"
#include "scalarsite_generic/generic_fused_spin_proj.h"
#include "scalarsite_generic/generic_fused_spin_recon.h"
#include "scalarsite_generic/generic_spin_aggregate.h"
#endif
#include "vf.h"
#include <memory>
#include <map>
namespace vf {
using namespace QDP;
typedef multi1d<int> Coord;

// ---- session geometry -------------------------------------------------
struct Geo { std::vector<int> L; int vol; };
inline Geo& geo() { static Geo g; return g; }
extern int geo_maxvol;                    // limit on the volume, set by the harness

inline void coord_of(int lex, int* x) { for (int m = 0; m < Nd; ++m) { x[m] = lex % geo().L[m]; lex /= geo().L[m]; } }
inline int lex_of(const int* x) { int r = 0; for (int m = Nd - 1; m >= 0; --m) r = r * geo().L[m] + x[m]; return r; }
inline Coord mcoord(int lex) { Coord c(Nd); int x[Nd]; coord_of(lex, x); for (int m = 0; m < Nd; ++m) c[m] = x[m]; return c; }
inline int lex_of(const Coord& c) { int x[Nd]; for (int m = 0; m < Nd; ++m) x[m] = c[m]; return lex_of(x); }
// linear index of every lexicographic site
inline const std::vector<int>& lin() {
  static std::vector<int> v;
  if ((int)v.size() != geo().vol) { v.resize(geo().vol); for (int i = 0; i < geo().vol; ++i) v[i] = Layout::linearSiteIndex(mcoord(i)); }
  return v;
}

inline std::vector<int> draw_extents(Case& c, int maxvol) {
  std::vector<int> L(Nd, 1);
  int big = c.chance(1, 8) ? 4 : 1;             // now and then a larger lattice with long directions
  maxvol *= big;
#if QDP_USE_CB32_LAYOUT == 1
  const int step0 = 4, step = 2;
#elif QDP_USE_CB2_LAYOUT == 1 || QDP_USE_CB3D_LAYOUT == 1
  const int step0 = 2, step = 1;
#else
  const int step0 = 1, step = 1;
#endif
#ifndef VF_NOHUGE
  if (big == 1 && maxvol >= 64 && c.chance(1, 80)) {     // rarely thousands of sites: some kernels change their method with the length
    int target = 1380 + (int)c.below(1900), v = 1; for (int m = 0; m < Nd; ++m) v *= L[m] = m ? step : step0;
    while (v < target) { int m = (int)c.below(Nd), st = m ? step : step0, add = st * (1 + (int)c.below(3)); v = v / L[m] * (L[m] + add); L[m] += add; }
    return L;
  }
#endif
  if (maxvol >= 64 && c.chance(1, 40)) {      // now and then a very long direction
    int d = (int)c.below(Nd); for (int m = 0; m < Nd; ++m) { int st = m ? step : step0; L[m] = st * (m == d ? 1 + (int)c.below(300 / st) : c.chance(1, 4) ? 2 : 1); }
    int w = 1; for (int m = 0; m < Nd; ++m) w *= L[m];
    if (w > 2500) for (int m = 0; m < Nd; ++m) if (m != d) L[m] = m ? step : step0;
    return L;
  }
  int v = 1;
  for (int m = 0; m < Nd; ++m) {
    int st = m ? step : step0;
    int rest = 1; for (int k = m + 1; k < Nd; ++k) rest *= step;
    int cap = maxvol / (v * rest * st); if (cap < 1) cap = 1;
    int top = std::min(cap, big * (m == 0 ? (step0 == 1 ? 7 : 4) : (step == 1 ? 5 : 3)));
    L[m] = st * (1 + (int)c.below(top));
    v *= L[m];
  }
  // the generous extent should not always be the first direction
#if QDP_USE_CB32_LAYOUT != 1
  int rot = (int)c.below(Nd);
  if (rot) {
#if QDP_USE_LEXICO_LAYOUT == 1
    std::rotate(L.begin(), L.begin() + rot, L.end());
#else
    if (Nd > 2) std::rotate(L.begin() + 1, L.begin() + 1 + (rot % (Nd - 1)), L.end());
#endif
  }
#endif
  return L;
}

inline void make_layout(const std::vector<int>& L, int argc, char** argv) {
  static char a0[] = "vf";
#ifdef VF_POOL
  static char a1[] = "-poolsize", a2[] = "0.07"; static char* av[] = {a0, a1, a2, 0}; static int ac = 3;
#else
  static char* av[] = {a0, 0}; static int ac = 1;
#endif
  static char** avp = av;
  QDP_initialize(&ac, &avp);
  Coord n(Nd); int v = 1; for (int m = 0; m < Nd; ++m) { n[m] = L[m]; v *= L[m]; }
  Layout::setLattSize(n);
  Layout::create();
  geo().L = L; geo().vol = v;
}

#ifndef VF_CUSTOM_SESSION
inline void default_session(Case& c, int argc, char** argv) {
  std::vector<int> L = draw_extents(c, geo_maxvol);
  std::string s = "L="; for (int m = 0; m < Nd; ++m) s += (m ? "x" : "") + std::to_string(L[m]);
  c.note(s);
  make_layout(L, argc, argv);
}
#endif

// ---- subsets ----------------------------------------------------------
class FnSet : public SetFunc {
 public:
  std::function<int(const Coord&)> f; int n;
  FnSet(std::function<int(const Coord&)> f_, int n_) : f(f_), n(n_) {}
  int operator()(const Coord& c) const { return f(c); }
  int numSubsets() const { return n; }
};
struct Sub {
  std::shared_ptr<Set> holder;
  Subset s;
  std::vector<char> in;      // membership by lexicographic site
  int count = 0; std::string name;
};
inline int parity(const int* x, int n = Nd) { int s = 0; for (int m = 0; m < n; ++m) s += x[m]; return s & 1; }
inline uint64_t site_hash(uint64_t seed, int lex) { return mix(seed * 0x100000001b3ull + lex); }

inline Sub draw_subset(Case& c, bool allow_empty = true) {
  Sub r; int V = geo().vol;
  int kind = (int)c.below(10);
  auto from = [&](std::function<int(int lex)> col, int ncol, int pick, const std::string& nm) {
    std::vector<int> cl(V); for (int i = 0; i < V; ++i) cl[i] = col(i);
    r.holder = std::make_shared<Set>();
    r.holder->make(FnSet([cl](const Coord& x) { return cl[lex_of(x)]; }, ncol));
    r.s = (*r.holder)[pick]; r.name = nm;
    r.in.resize(V); for (int i = 0; i < V; ++i) r.in[i] = cl[i] == pick;
  };
  switch (kind) {
    case 0: r.s = all; r.name = "all"; r.in.assign(V, 1); break;
    case 1: case 2: {
      int cb = kind - 1; r.s = c.chance(1, 2) ? rb[cb] : (cb ? odd : even); r.name = cb ? "odd" : "even"; r.in.resize(V);
      for (int i = 0; i < V; ++i) { int x[Nd]; coord_of(i, x); r.in[i] = parity(x) == cb; } break; }
    case 3: {
      int cb = (int)c.below(2); r.s = rb3[cb]; r.name = "rb3[" + std::to_string(cb) + "]"; r.in.resize(V);
      for (int i = 0; i < V; ++i) { int x[Nd]; coord_of(i, x); r.in[i] = parity(x, 3) == cb; } break; }
    case 4: {
      int k = (int)c.below(1 << (Nd + 1)); r.s = mcb[k]; r.name = "mcb[" + std::to_string(k) + "]"; r.in.resize(V);
      for (int i = 0; i < V; ++i) { int x[Nd]; coord_of(i, x); int col = 0, s = 0; for (int m = 0; m < Nd; ++m) { col |= (x[m] & 1) << m; s += x[m] >> 1; } r.in[i] = (col | ((s & 1) << Nd)) == k; } break; }
    case 5: { int site = (int)c.below(V); from([=](int l) { return l == site; }, 2, 1, "site " + std::to_string(site)); break; }
    case 6: { int a = (int)c.below(V), n = 1 + (int)c.below(V - a); const auto& ln = lin();      // contiguous in memory
      from([=](int l) { int k = lin()[l]; return k >= a && k < a + n; }, 2, 1, "range " + std::to_string(a) + "+" + std::to_string(n)); (void)ln; break; }
    case 7: { int mu = (int)c.below(Nd), t = (int)c.below(geo().L[mu]); int n = geo().L[mu];
      from([=](int l) { int x[Nd]; coord_of(l, x); return x[mu]; }, n, t, "slice " + std::to_string(mu) + "=" + std::to_string(t)); break; }
    default: { uint64_t sd = c.seed(); int n = 2 + (int)c.below(4), k = (int)c.below(n);
      from([=](int l) { return (int)(site_hash(sd, l) % n); }, n, k, "hash " + std::to_string(sd) + "%" + std::to_string(n) + "=" + std::to_string(k)); }
  }
  for (char b : r.in) r.count += b;
  if (!r.count && !allow_empty) { r = Sub(); r.s = all; r.name = "all"; r.in.assign(V, 1); r.count = V; }
  return r;
}
inline Sub whole() { Sub r; r.s = all; r.name = "all"; r.in.assign(geo().vol, 1); r.count = geo().vol; return r; }

// ---- component access ---------------------------------------------------
struct Ix { int sr, sc, cr, cc; };
template <class T> struct Dim;                 // spin rows/cols, colour rows/cols, complexity
template <class T> struct Dim<RScalar<T>> { enum { sr = 1, sc = 1, cr = 1, cc = 1, cplx = 0 }; typedef T word; };
template <class T> struct Dim<RComplex<T>> { enum { sr = 1, sc = 1, cr = 1, cc = 1, cplx = 1 }; typedef T word; };
template <class T> struct Dim<PScalar<T>> : Dim<T> {};
template <class T, int N> struct Dim<PColorVector<T, N>> : Dim<T> { enum { cr = N, cc = 1 }; };
template <class T, int N> struct Dim<PColorMatrix<T, N>> : Dim<T> { enum { cr = N, cc = N }; };
template <class T, int N> struct Dim<PSpinVector<T, N>> : Dim<T> { enum { sr = N, sc = 1 }; };
template <class T, int N> struct Dim<PSpinMatrix<T, N>> : Dim<T> { enum { sr = N, sc = N }; };

// f(Ix, word& re, word* im or null)
template <class F, class T> void walk(RScalar<T>& x, Ix i, F&& f) { f(i, x.elem(), (T*)0); }
template <class F, class T> void walk(RComplex<T>& x, Ix i, F&& f) { f(i, x.real(), &x.imag()); }
template <class F, class T> void walk(PScalar<T>& x, Ix i, F&& f) { walk(x.elem(), i, f); }
template <class F, class T, int N> void walk(PColorVector<T, N>& x, Ix i, F&& f) { for (int a = 0; a < N; ++a) { i.cr = a; walk(x.elem(a), i, f); } }
template <class F, class T, int N> void walk(PSpinVector<T, N>& x, Ix i, F&& f) { for (int a = 0; a < N; ++a) { i.sr = a; walk(x.elem(a), i, f); } }
template <class F, class T, int N> void walk(PColorMatrix<T, N>& x, Ix i, F&& f) { for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { i.cr = a; i.cc = b; walk(x.elem(a, b), i, f); } }
template <class F, class T, int N> void walk(PSpinMatrix<T, N>& x, Ix i, F&& f) { for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { i.sr = a; i.sc = b; walk(x.elem(a, b), i, f); } }

template <class Q> struct Obj;                 // uniform view of lattice and scalar objects
template <class T> struct Obj<OLattice<T>> { typedef T elem; enum { lattice = 1 }; static int sites() { return geo().vol; } static T& at(OLattice<T>& q, int lex) { return q.elem(lin()[lex]); } static const T& at(const OLattice<T>& q, int lex) { return q.elem(lin()[lex]); } };
template <class T> struct Obj<OScalar<T>> { typedef T elem; enum { lattice = 0 }; static int sites() { return 1; } static T& at(OScalar<T>& q, int) { return q.elem(); } static const T& at(const OScalar<T>& q, int) { return q.elem(); } };
template <class Q, class F> void walkall(Q& q, F&& f) { for (int l = 0; l < Obj<Q>::sites(); ++l) walk(Obj<Q>::at(q, l), Ix{0, 0, 0, 0}, [&](Ix i, auto& re, auto* im) { f(l, i, re, im); }); }
template <class Q> struct Words { typedef typename Dim<typename Obj<Q>::elem>::word type; };

inline std::string where_str(int lex, Ix i) { std::ostringstream o; int x[Nd]; coord_of(lex, x); o << "site ("; for (int m = 0; m < Nd; ++m) o << (m ? "," : "") << x[m]; o << ") spin " << i.sr << "," << i.sc << " colour " << i.cr << "," << i.cc; return o.str(); }

// Values: kinds 0 small integers, 1 uniform(-1,1), 2 mostly 0, some 1, 3 wide range, 5 exact 0, +-1 and +-1/2 among uniform,
// 6 and 7 uniform with every real (imaginary) part exactly 0
inline double value(uint64_t seed, int kind, uint64_t k) {
  uint64_t h = mix(seed * 0x9e3779b97f4a7c15ull + k);
  double u = (h >> 11) * (1.0 / 9007199254740992.0);
  switch (kind) {
    case 0: return (double)((int)(h % 7) - 3);
    case 2: return h % 9 == 0 ? 1.0 : 0.0;
    case 3: return (u * 2 - 1) * std::ldexp(1.0, (int)((h & 15)) - 8);
    case 5: return h % 3 == 0 ? 0.0 : h % 3 == 1 ? (double)((int)(h / 3 % 5) - 2) * 0.5 : u * 2 - 1;
    default: return u * 2 - 1;
  }
}
template <class Q> void fill(Q& q, uint64_t seed, int kind) {
  uint64_t k = 0; typedef typename Words<Q>::type W;
  walkall(q, [&](int, Ix, W& re, W* im) { re = (W)value(seed, kind, k++); if (im) *im = (W)value(seed, kind, k++); if (kind == 6 && im) re = 0; if (kind == 7 && im) *im = 0; });
}
template <class Q> void fill(Case& c, Q& q) { uint64_t s = c.seed(); int k = (int)c.below(12); static const int kinds[12] = {0, 1, 1, 1, 1, 2, 3, 3, 5, 5, 6, 7}; fill(q, s, kinds[k]); }

// Bit image of a site, without padding
template <class T> constexpr size_t words_of() { return (size_t)Dim<T>::sr * Dim<T>::sc * Dim<T>::cr * Dim<T>::cc * (Dim<T>::cplx ? 2 : 1); }
template <class T> std::string bits(const T& e) {
  typedef typename Dim<T>::word W;
  if (sizeof(T) == words_of<T>() * sizeof(W)) return std::string((const char*)&e, sizeof e);
  std::string s; walk(const_cast<T&>(e), Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { s.append((const char*)&re, sizeof(W)); if (im) s.append((const char*)im, sizeof(W)); });
  return s;
}
template <class T> bool bits_eq(const T& a, const T& b) {
  typedef typename Dim<T>::word W;
  if (sizeof(T) == words_of<T>() * sizeof(W)) return !memcmp(&a, &b, sizeof(T));
  return bits(a) == bits(b);
}
// equal as numbers: the sign of zero may differ
template <class T> bool num_eq(const T& a, const T& b) {
  typedef typename Dim<T>::word W; std::vector<W> v; size_t k = 0; bool ok = true;
  std::vector<W> u;
  walk(const_cast<T&>(a), Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { u.push_back(re); if (im) u.push_back(*im); });
  walk(const_cast<T&>(b), Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { ok &= u[k++] == re; if (im) ok &= u[k++] == *im; });
  return ok;
}
template <class Q> std::vector<std::string> image(const Q& q) {
  std::vector<std::string> v(Obj<Q>::sites());
  for (size_t l = 0; l < v.size(); ++l) v[l] = bits(Obj<Q>::at(q, (int)l));
  return v;
}
template <class Q> void check_untouched(Case& c, const Q& q, const std::vector<std::string>& before, const std::vector<char>& in, const char* sig) {
  for (size_t l = 0; l < before.size(); ++l) if (!in[l] && before[l] != bits(Obj<Q>::at(q, (int)l))) c.fail(sig, "a site outside the subset changed: " + where_str((int)l, Ix{0, 0, 0, 0}));
}
}  // namespace vf
#endif
