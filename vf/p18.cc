// multi1d..multi5d, multiNd and the one-based arrays against plain vectors with row-major indexing.
#include "stmt.h"
#include "qdp_util.h"
#include <array>
#include <memory>
namespace vf {
namespace {
typedef std::vector<int> Dims;
inline int count(const Dims& d) { int n = 1; for (int x : d) n *= x; return d.empty() ? 0 : n; }
inline int flat(const Dims& d, const Dims& i) { int o = 0; for (size_t k = 0; k < d.size(); ++k) o = o * d[k] + i[k]; return o; }
inline std::string show(const Dims& d) { std::string s = "("; for (size_t k = 0; k < d.size(); ++k) s += (k ? "," : "") + std::to_string(d[k]); return s + ")"; }
inline bool step(const Dims& d, Dims& i) { for (int k = (int)d.size() - 1; k >= 0; --k) { if (++i[k] < d[k]) return true; i[k] = 0; } return false; }
inline Dims nth(const Dims& d, int f) { Dims i(d.size()); for (int k = (int)d.size() - 1; k >= 0; --k) { i[k] = f % d[k]; f /= d[k]; } return i; }
template <class T> T val(uint64_t h) { if constexpr (std::is_same<T, std::string>::value) return std::string(h % 40, (char)('a' + (h >> 8) % 26)) + std::to_string(h % 9973); else if constexpr (std::is_same<T, Complex>::value) return cmplx(Real((int)(h % 2001) - 1000), Real((int)((h >> 20) % 2001) - 1000)); else return (T)((double)((int)(h % 200001) - 100000) / (std::is_integral<T>::value ? 1 : 8)); }
template <class T> bool eq(const T& a, const T& b) { if constexpr (std::is_same<T, Complex>::value) return toBool(real(a) == real(b)) && toBool(imag(a) == imag(b)); else return a == b; }
// ---- one shape of container -----------------------------------------------------
template <class T, int D> struct Box;
template <class T> struct Box<T, 1> { typedef multi1d<T> type; enum { slices = 1 };
  static type* make(const Dims& d) { return new type(d[0]); } static type* view(T* p, const Dims& d) { return new type(p, d[0]); } static void resize(type& a, const Dims& d) { a.resize(d[0]); } static Dims dims(const type& a) { if (a.size() != a.size1()) return {-1}; return {a.size1()}; }
  static T& at(type& a, const Dims& i, int f) { return f % 2 ? a(i[0]) : a[i[0]]; } static const T& at(const type& a, const Dims& i, int f) { switch (f % 3) { case 0: return a(i[0]); case 1: return a[i[0]]; default: return a.slice()[i[0]]; } } };
template <class T> struct Box<T, 2> { typedef multi2d<T> type; enum { slices = 1 };
  static type* make(const Dims& d) { return new type(d[0], d[1]); } static type* view(T* p, const Dims& d) { return new type(p, d[0], d[1]); } static void resize(type& a, const Dims& d) { a.resize(d[0], d[1]); } static Dims dims(const type& a) { if (a.nrows() != a.size2() || a.ncols() != a.size1()) return {-1}; return {a.size2(), a.size1()}; }
  static T& at(type& a, const Dims& i, int f) { return f % 2 ? a(i[0], i[1]) : a[i[0]][i[1]]; } static const T& at(const type& a, const Dims& i, int f) { switch (f % 3) { case 0: return a(i[0], i[1]); case 1: return a[i[0]][i[1]]; default: return a.slice(i[0])[i[1]]; } } };
template <class T> struct Box<T, 3> { typedef multi3d<T> type; enum { slices = 1 };
  static type* make(const Dims& d) { return new type(d[0], d[1], d[2]); } static type* view(T* p, const Dims& d) { return new type(p, d[0], d[1], d[2]); } static void resize(type& a, const Dims& d) { a.resize(d[0], d[1], d[2]); } static Dims dims(const type& a) { if (a.leftSize() != a.size3() || a.middleSize() != a.size2() || a.rightSize() != a.size1()) return {-1}; return {a.size3(), a.size2(), a.size1()}; }
  static T& at(type& a, const Dims& i, int f) { switch (f % 3) { case 0: return a(i[0], i[1], i[2]); case 1: return a[i[0]][i[1]][i[2]]; default: return a[i[0]](i[1], i[2]); } } static const T& at(const type& a, const Dims& i, int f) { switch (f % 4) { case 0: return a(i[0], i[1], i[2]); case 1: return a[i[0]][i[1]][i[2]]; case 2: return a[i[0]](i[1], i[2]); default: return a.slice(i[0], i[1])[i[2]]; } } };
template <class T> struct Box<T, 4> { typedef multi4d<T> type; enum { slices = 1 };
  static type* make(const Dims& d) { return new type(d[0], d[1], d[2], d[3]); } static type* view(T* p, const Dims& d) { return new type(p, d[0], d[1], d[2], d[3]); } static void resize(type& a, const Dims& d) { a.resize(d[0], d[1], d[2], d[3]); } static Dims dims(const type& a) { return {a.size4(), a.size3(), a.size2(), a.size1()}; }
  static T& at(type& a, const Dims& i, int f) { switch (f % 3) { case 0: return a(i[0], i[1], i[2], i[3]); case 1: return a[i[0]][i[1]][i[2]][i[3]]; default: return a[i[0]][i[1]](i[2], i[3]); } } static const T& at(const type& a, const Dims& i, int f) { switch (f % 4) { case 0: return a(i[0], i[1], i[2], i[3]); case 1: return a[i[0]][i[1]][i[2]][i[3]]; case 2: return a[i[0]](i[1], i[2], i[3]); default: return a.slice(i[0], i[1], i[2])[i[3]]; } } };
template <class T> struct Box<T, 5> { typedef multi5d<T> type; enum { slices = 1 };
  static type* make(const Dims& d) { return new type(d[0], d[1], d[2], d[3], d[4]); } static type* view(T* p, const Dims& d) { return new type(p, d[0], d[1], d[2], d[3], d[4]); } static void resize(type& a, const Dims& d) { a.resize(d[0], d[1], d[2], d[3], d[4]); } static Dims dims(const type& a) { return {a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; }
  static T& at(type& a, const Dims& i, int f) { switch (f % 3) { case 0: return a(i[0], i[1], i[2], i[3], i[4]); case 1: return a[i[0]][i[1]][i[2]][i[3]][i[4]]; default: return a[i[0]][i[1]](i[2], i[3], i[4]); } } static const T& at(const type& a, const Dims& i, int f) { switch (f % 4) { case 0: return a(i[0], i[1], i[2], i[3], i[4]); case 1: return a[i[0]][i[1]][i[2]][i[3]][i[4]]; case 2: return a[i[0]](i[1], i[2], i[3], i[4]); default: return a.slice(i[0], i[1], i[2], i[3])[i[4]]; } } };
inline multi1d<int> pack(const Dims& d) { multi1d<int> m((int)d.size()); for (size_t k = 0; k < d.size(); ++k) m[(int)k] = d[k]; return m; }
template <class T> struct Box<T, 0> { typedef multiNd<T> type; enum { slices = 0 };      // any rank
  static type* make(const Dims& d) { return new type(pack(d)); } static type* view(T*, const Dims&) { return 0; } static void resize(type& a, const Dims& d) { a.resize(pack(d)); }
  static Dims dims(const type& a) { Dims d; for (int k = 0; k < a.size().size(); ++k) { if (a.size(k) != a.size()[k]) return {-1}; d.push_back(a.size(k)); } if (a.numElem() != count(d)) return {-2}; return d; }
  template <class A, class R> static R& get(A& a, const Dims& i, int f) { switch (f % 3) { case 0: switch (i.size()) { case 1: return a(i[0]); case 2: return a(i[0], i[1]); case 3: return a(i[0], i[1], i[2]); case 4: return a(i[0], i[1], i[2], i[3]); } return a[pack(i)]; case 1: return a[pack(i)]; default: return a.getElem(flat(dims(a), i)); } }
  static T& at(type& a, const Dims& i, int f) { return get<type, T>(a, i, f); } static const T& at(const type& a, const Dims& i, int f) { return get<const type, const T>(a, i, f); } };
template <class T, int D> struct Owned { std::unique_ptr<typename Box<T, D>::type> a; std::shared_ptr<std::vector<T>> store; bool view = false; Dims d; std::vector<T> m; bool sized = false; };
template <class T, int D> void history(Case& c) {
  typedef Box<T, D> B; typedef typename B::type A; typedef Owned<T, D> O; std::vector<O> pool(4); uint64_t seed = c.seed(), k = 0; auto fresh = [&] { return val<T>(mix(seed + ++k)); };
  auto draw = [&] { Dims d; { const Dims& e = pool[c.below(4)].d; if (!e.empty() && c.chance(1, 3)) { d = e; int i = (int)c.below(d.size()); if (!c.chance(1, 6)) d[i] = 1 + (int)c.below(4); return d; } } int r = D ? D : 1 + (int)c.below(6); for (int i = 0; i < r; ++i) d.push_back(c.chance(1, 12) ? 0 : 1 + (int)c.below(r > 3 ? 3 : 5)); if (c.chance(1, 25)) d[c.below(r)] = 1 + (int)c.below(r > 3 ? 17 : r > 1 ? 70 : 1500); return d; };
  auto load = [&](O& o) { o.m.clear(); if (count(o.d)) { Dims i(o.d.size(), 0); do { o.m.push_back(fresh()); B::at(*o.a, i, (int)(seed + k)) = o.m.back(); } while (step(o.d, i)); } };   // every element set
  for (auto& o : pool) { o.a.reset(new A); o.d = Dims(D, 0); }
  auto verify = [&](const char* what) {
    for (int p = 0; p < 4; ++p) { O& o = pool[p]; const A& a = *o.a; Dims g = B::dims(a); VF_CHECK(c, g == o.d, "size", "after " << what << " array " << p << " has size " << show(g) << " instead of " << show(o.d)); if (!count(o.d)) continue; Dims i(o.d.size(), 0); int n = 0;
      do { for (int f = 0; f < 4; ++f) VF_CHECK(c, eq(B::at(a, i, f), o.m[n]), f ? "element" : "call", "after " << what << " element " << show(i) << " of array " << p << " of size " << show(o.d) << " differs (access form " << f << ")"); VF_CHECK(c, eq(B::at(*o.a, i, (int)(k + n)), o.m[n]), "element", "after " << what << " element " << show(i) << " of array " << p << " (writable access)");
        if (o.view) VF_CHECK(c, eq((*o.store)[n], o.m[n]), "view", "after " << what << " the memory under view " << p << " differs at " << n); ++n; } while (step(o.d, i)); } };
  int ops = 2 + (int)c.below(12); std::string log; bool deep = false;
  for (int s = 0; s < ops; ++s) {
    int p = (int)c.below(4), q = (int)c.below(4); O& o = pool[p]; O& r = pool[q]; std::string what;
    switch (c.below(11)) {
      case 0: o = O(); o.d = draw(); o.a.reset(B::make(o.d)); o.sized = true; load(o); what = "construct" + show(o.d); break;
      case 1: o = O(); o.a.reset(new A); o.d = Dims(D, 0); what = "default"; break;
      case 2: { O n; n.a.reset(new A(*r.a)); n.d = r.d; n.m = r.m; n.sized = true; o = std::move(n); what = "copy of " + std::to_string(q); deep = true; break; }
      case 3: if (o.view && o.d != r.d) continue; *o.a = *r.a; o.d = r.d; { auto t = r.m; o.m = t; } o.sized = o.sized || count(o.d) > 0; what = std::to_string(p) + " = " + std::to_string(q); deep = true; break;
      case 4: if (o.view) continue; o.d = draw(); B::resize(*o.a, o.d); o.sized = true; load(o); what = "resize" + show(o.d); break;
      case 5: { if (!o.sized || !count(o.d)) continue; T v = fresh(); *o.a = v; for (auto& x : o.m) x = v; what = "fill"; break; }
      case 6: case 7: { int n = count(o.d); if (!n) continue; int f = (int)c.below(n); T v = fresh(); B::at(*o.a, nth(o.d, f), (int)c.below(6)) = v; o.m[f] = v; what = "set " + show(nth(o.d, f)); break; }
      case 8: { O n; n.d = draw(); n.store = std::make_shared<std::vector<T>>(); for (int i = count(n.d); i > 0; --i) n.store->push_back(fresh()); n.m = *n.store; if (!B::slices || !count(n.d)) continue; n.a.reset(B::view(n.store->data(), n.d)); n.view = n.sized = true; o = std::move(n); what = "view"; break; }
      case 9: if constexpr (D >= 2) { if (!count(o.d)) continue; int i = (int)c.below(o.d[0]); Dims sub(o.d.begin() + 1, o.d.end()); int len = count(sub); T v = fresh();       // whole slices
          if (c.chance(1, 2)) { (*o.a)[i] = v; for (int n = 0; n < len; ++n) o.m[i * len + n] = v; what = "slice fill"; }
          else { std::unique_ptr<typename Box<T, D - 1>::type> t(Box<T, D - 1>::make(sub)); Dims x(sub.size(), 0); int n = 0; do { T w = fresh(); Box<T, D - 1>::at(*t, x, 0) = w; o.m[i * len + n++] = w; } while (step(sub, x)); (*o.a)[i] = *t; what = "slice assign"; } break; } else continue;
      default: if constexpr (D >= 2) { if (!count(o.d)) continue; int i = (int)c.below(o.d[0]); Dims sub(o.d.begin() + 1, o.d.end()); int len = count(sub); typename Box<T, D - 1>::type w; { auto v = (*o.a)[i]; w = v; int n = (int)c.below(len); T x = fresh(); Box<T, D - 1>::at(v, nth(sub, n), (int)c.below(6)) = x; o.m[i * len + n] = x; bool ok = Box<T, D - 1>::dims(v) == sub && Box<T, D - 1>::dims(w) == sub; VF_CHECK(c, ok, "slice size", "slice of an array of size " << show(o.d)); }    // a view writes through, a copy of it does not
          w = fresh(); what = "slice view"; } else continue;
    }
    log += what + ";"; c.note(what + ";"); verify(what.c_str());
    if (c.chance(1, 5) && s) { pool[q] = O(); pool[q].a.reset(new A); pool[q].d = Dims(D, 0); c.note("destroy " + std::to_string(q) + ";"); verify("destroy"); }
  }
  c.nontrivial(deep || log.size() > 20);
}
}
#define HIST(D, nm) VF_TEST(nm " history", 2) { switch (c.below(4)) { case 0: history<int, D>(c); break; case 1: history<std::string, D>(c); break; case 2: history<Complex, D>(c); break; default: history<double, D>(c); } }
HIST(1, "multi1d") HIST(2, "multi2d") HIST(3, "multi3d") HIST(4, "multi4d") HIST(5, "multi5d") HIST(0, "multiNd")
// ---- elementwise operations -------------------------------------------------
namespace {
template <class T> void elementwise(Case& c) {
  int n = 1 + (int)(c.chance(1, 20) ? c.below(3000) : c.below(9)); std::vector<T> a(n), b(n); uint64_t sd = c.seed(); bool small = c.chance(1, 2); auto draw = [&](uint64_t i) { T v = small ? (T)((int)(mix(sd + i) % 5) - 2) : val<T>(mix(sd + i)); return v; }; for (int i = 0; i < n; ++i) { a[i] = draw(i); b[i] = draw(10000 + i); if (b[i] == T(0)) b[i] = T(3); } T s = draw(30000); if (s == T(0)) s = T(2);
  auto put = [](const std::vector<T>& v) { multi1d<T> m((int)v.size()); for (size_t i = 0; i < v.size(); ++i) m[(int)i] = v[i]; return m; }; multi1d<T> x = put(a), y = put(b), z; int op = (int)c.below(16); std::vector<T> w(n); c.note("op " + std::to_string(op) + " n " + std::to_string(n)); const char* nm = "";
  for (int i = 0; i < n; ++i) { T p = a[i], q = b[i]; switch (op) { case 0: case 8: w[i] = p + q; break; case 1: case 9: w[i] = p - q; break; case 2: case 10: w[i] = p * q; break; case 3: case 11: w[i] = p / q; break; case 4: case 12: w[i] = p + s; break; case 5: case 13: w[i] = p - s; break; case 6: case 14: w[i] = p * s; break; default: w[i] = p / s; } }
  switch (op) { case 0: z = x + y; nm = "+"; break; case 1: z = x - y; nm = "-"; break; case 2: z = x * y; nm = "*"; break; case 3: z = x / y; nm = "/"; break; case 4: z = c.chance(1, 2) ? x + s : s + x; nm = "+ scalar"; break; case 5: z = x - s; nm = "- scalar"; break; case 6: z = c.chance(1, 2) ? x * s : s * x; nm = "* scalar"; break; case 7: z = x / s; nm = "/ scalar"; break;
    case 8: z = x; z += y; nm = "+="; break; case 9: z = x; z -= y; nm = "-="; break; case 10: z = x; z *= y; nm = "*="; break; case 11: z = x; z /= y; nm = "/="; break; case 12: z = x; z += s; nm = "+= scalar"; break; case 13: z = x; z -= s; nm = "-= scalar"; break; case 14: z = x; z *= s; nm = "*= scalar"; break; default: z = x; z /= s; nm = "/= scalar"; }
  VF_CHECK(c, z.size() == n, "size", nm << " gives size " << z.size()); for (int i = 0; i < n; ++i) VF_CHECK(c, z[i] == w[i] && x[i] == a[i] && y[i] == b[i], "value", nm << " element " << i << " is " << z[i] << " instead of " << w[i]);
  z = s - y; for (int i = 0; i < n; ++i) VF_CHECK(c, z[i] == T(s - b[i]), "value", "scalar - array element " << i << " is " << z[i]); z = s / y; for (int i = 0; i < n; ++i) VF_CHECK(c, z[i] == T(s / b[i]), "value", "scalar / array element " << i << " is " << z[i]);
  T nn = a[0] * a[0]; for (int i = 1; i < n; ++i) nn += a[i] * a[i]; if constexpr (std::is_floating_point<T>::value) { T g = norm2(x); VF_CHECK(c, std::abs(g - nn) <= 1e-5 * std::abs(nn), "norm2", "norm2 " << g << " instead of " << nn); }
  std::vector<T> l = a; l.insert(l.end(), b.begin(), b.begin() + c.below(n + 1)); int extra = (int)l.size() - n; multi1d<T> y2(extra); for (int i = 0; i < extra; ++i) y2[i] = b[i]; z = concat(x, y2); VF_CHECK(c, z.size() == (int)l.size(), "size", "concat of " << n << " and " << extra << " elements has size " << z.size()); for (size_t i = 0; i < l.size(); ++i) VF_CHECK(c, z[(int)i] == l[i], "concat", "concat element " << i << " is " << z[(int)i] << " instead of " << l[i]);
  const T* raw = b.data(); z = x; z = raw; for (int i = 0; i < n; ++i) VF_CHECK(c, z[i] == b[i], "pointer", "assignment from a C array, element " << i); c.nontrivial(n > 1);
}
}
VF_TEST("elementwise") { switch (c.below(3)) { case 0: elementwise<double>(c); break; case 1: elementwise<float>(c); break; default: elementwise<long long>(c); } }
VF_TEST("comparison") {
  auto gen = [&] { std::vector<int> v(c.below(5)); for (int& x : v) x = (int)c.range(-1, 2); return v; }; std::vector<int> a = gen(), b = c.chance(1, 3) ? a : gen(); if (c.chance(1, 3)) { b = a; if (!b.empty()) b[c.below(b.size())] += (int)c.range(-1, 1); } multi1d<int> x((int)a.size()), y((int)b.size()); for (size_t i = 0; i < a.size(); ++i) x[(int)i] = a[i]; for (size_t i = 0; i < b.size(); ++i) y[(int)i] = b[i];
  if (a.empty() && c.chance(1, 2)) x = multi1d<int>(); std::string s = show(a) + show(b); c.note(s); VF_CHECK(c, (x == y) == (a == b), "==", s << " =="); VF_CHECK(c, (x != y) == (a != b), "!=", s << " !="); VF_CHECK(c, (x < y) == (a < b), "<", s << " <"); VF_CHECK(c, (x > y) == (a > b), ">", s << " >"); VF_CHECK(c, (x <= y) == (a <= b), "<=", s << " <="); VF_CHECK(c, (x >= y) == (a >= b), ">=", s << " >="); VF_CHECK(c, x == x && x <= x && !(x < x), "reflexive", s);
  multi1d<std::string> u((int)a.size()), v((int)b.size()); std::vector<std::string> p, q; for (int t : a) p.push_back(std::to_string(t)); for (int t : b) q.push_back(std::to_string(t)); for (size_t i = 0; i < p.size(); ++i) u[(int)i] = p[i]; for (size_t i = 0; i < q.size(); ++i) v[(int)i] = q[i]; VF_CHECK(c, (u == v) == (p == q) && (u < v) == (p < q) && (u > v) == (p > q), "strings", s); c.nontrivial(!a.empty());
}
VF_TEST("math functions") {
  int n = 1 + (int)c.below(6); multi1d<RealD> x(n); std::vector<double> a(n); uint64_t sd = c.seed(); for (int i = 0; i < n; ++i) { a[i] = 0.001 + 0.998 * (double)(mix(sd + i) >> 11) / (double)(1ull << 53); x[i] = a[i]; } int f = (int)c.below(8); c.note("function " + std::to_string(f)); multi1d<RealD> z;
  switch (f) { case 0: z = sqrt(x); break; case 1: z = log(x); break; case 2: z = sin(x); break; case 3: z = cos(x); break; case 4: z = tan(x); break; case 5: z = asin(x); break; case 6: z = acos(x); break; default: z = atan(x); }
  VF_CHECK(c, z.size() == n, "size", "size " << z.size()); for (int i = 0; i < n; ++i) { double v = a[i], w = f == 0 ? std::sqrt(v) : f == 1 ? std::log(v) : f == 2 ? std::sin(v) : f == 3 ? std::cos(v) : f == 4 ? std::tan(v) : f == 5 ? std::asin(v) : f == 6 ? std::acos(v) : std::atan(v); VF_CHECK(c, std::abs(toDouble(z[i]) - w) <= 1e-12 * (1 + std::abs(w)) && toDouble(x[i]) == v, "value", "function " << f << " of element " << i << " is " << toDouble(z[i]) << " instead of " << w); } c.nontrivial();
}
VF_TEST("unique list") { int n = 1 + (int)(c.chance(1, 20) ? c.below(400) : c.below(12)); multi1d<int> l(n); std::vector<int> w; std::string s; for (int i = 0; i < n; ++i) { l[i] = (int)c.below(1 + c.below(n > 12 ? 200 : 6)); s += std::to_string(l[i]) + " "; if (std::find(w.begin(), w.end(), l[i]) == w.end()) w.push_back(l[i]); } multi1d<int> u = uniquify_list(l); c.note(s); VF_CHECK(c, u.size() == (int)w.size(), "size", "the list " << s << " has " << u.size() << " different entries?"); for (size_t i = 0; i < w.size(); ++i) VF_CHECK(c, u[(int)i] == w[i], "value", "entry " << i << " of the unique " << s << " is " << u[(int)i]); c.nontrivial(n > 1); }
// ---- one-based arrays --------------------------------------------------------
namespace {
template <class T> struct OBox1 { typedef Array1dO<T> type; static void resize(type& a, const Dims& d) { a.resize(d[0]); } static T& at(type& a, const Dims& i) { return a[i[0] + 1]; } static const T& at(const type& a, const Dims& i) { return a[i[0] + 1]; } static Dims dims(const type& a) { return {a.size()}; } static type* make(const Dims& d) { return new type(d[0]); } static const T& raw(const type& a, const Dims& i) { return a.ref()[i[0]]; } enum { rank = 1 }; };
template <class T> struct OBox2 { typedef Array2dO<T> type; static void resize(type& a, const Dims& d) { if (d[0] == d[1]) a.resize(d[0]); else a.resize(d[0], d[1]); } static T& at(type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1); } static const T& at(const type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1); } static Dims dims(const type& a) { if (a.size() != a.size1() || a.nrows() != a.size2() || a.ncols() != a.size1()) return {-1}; return {a.size2(), a.size1()}; } static type* make(const Dims& d) { return d[0] == d[1] ? new type(d[0]) : new type(d[0], d[1]); } static const T& raw(const type& a, const Dims& i) { return a.ref()(i[0], i[1]); } enum { rank = 2 }; };
template <class T> struct OBox3 { typedef Array3dO<T> type; static void resize(type& a, const Dims& d) { if (d[0] == d[1] && d[1] == d[2]) a.resize(d[0]); else a.resize(d[0], d[1], d[2]); } static T& at(type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1); } static const T& at(const type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1); } static Dims dims(const type& a) { if (a.size() != a.size1() || a.leftSize() != a.size3() || a.middleSize() != a.size2() || a.rightSize() != a.size1()) return {-1}; return {a.size3(), a.size2(), a.size1()}; } static type* make(const Dims& d) { return d[0] == d[1] && d[1] == d[2] ? new type(d[0]) : new type(d[0], d[1], d[2]); } static const T& raw(const type& a, const Dims& i) { return a.ref()(i[0], i[1], i[2]); } enum { rank = 3 }; };
template <class T> struct OBox4 { typedef Array4dO<T> type; static bool cube(const Dims& d) { for (int x : d) if (x != d[0]) return false; return true; } static void resize(type& a, const Dims& d) { if (cube(d)) a.resize(d[0]); else a.resize(d[0], d[1], d[2], d[3]); } static T& at(type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1); } static const T& at(const type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1); } static Dims dims(const type& a) { if (a.size() != a.size1()) return {-1}; return {a.size4(), a.size3(), a.size2(), a.size1()}; } static type* make(const Dims& d) { return cube(d) ? new type(d[0]) : new type(d[0], d[1], d[2], d[3]); } static const T& raw(const type& a, const Dims& i) { return a.ref()(i[0], i[1], i[2], i[3]); } enum { rank = 4 }; };
template <class T> struct OBox5 { typedef Array5dO<T> type; static bool cube(const Dims& d) { for (int x : d) if (x != d[0]) return false; return true; } static void resize(type& a, const Dims& d) { if (cube(d)) a.resize(d[0]); else a.resize(d[0], d[1], d[2], d[3], d[4]); } static T& at(type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1, i[4] + 1); } static const T& at(const type& a, const Dims& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1, i[4] + 1); } static Dims dims(const type& a) { if (a.size() != a.size1()) return {-1}; return {a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; } static type* make(const Dims& d) { return cube(d) ? new type(d[0]) : new type(d[0], d[1], d[2], d[3], d[4]); } static const T& raw(const type& a, const Dims& i) { return a.ref()(i[0], i[1], i[2], i[3], i[4]); } enum { rank = 5 }; };
template <class B, class T> void onebased(Case& c) {
  typedef typename B::type A; struct O { std::unique_ptr<A> a; Dims d; std::vector<T> m; }; O pool[3]; uint64_t sd = c.seed(), k = 0; auto fresh = [&] { return val<T>(mix(sd + ++k)); };
  auto load = [&](O& o) { o.m.clear(); if (!count(o.d)) return; Dims i(o.d.size(), 0); do { o.m.push_back(fresh()); B::at(*o.a, i) = o.m.back(); } while (step(o.d, i)); }; for (auto& o : pool) { o.d = Dims(B::rank, 0); o.a.reset(new A); }
  for (int s = 0, n = 2 + (int)c.below(8); s < n; ++s) {
    int p = (int)c.below(3), q = (int)c.below(3); O& o = pool[p]; std::string what; Dims d; bool cube = c.chance(1, 3); for (int i = 0; i < B::rank; ++i) d.push_back(cube && i ? d[0] : 1 + (int)c.below(4)); if (c.chance(1, 25)) { int z = 1 + (int)c.below(B::rank > 3 ? 9 : B::rank > 1 ? 30 : 700); for (int i = 0; i < B::rank; ++i) if (cube || i == 0) d[i] = cube ? std::min(z, 6) : z; }
    switch (c.below(6)) { case 0: o.a.reset(B::make(d)); o.d = d; load(o); what = "construct" + show(d); break; case 1: B::resize(*o.a, d); o.d = d; load(o); what = "resize" + show(d); break; case 2: { std::unique_ptr<A> t(new A(*pool[q].a)); o.a = std::move(t); o.d = pool[q].d; auto m = pool[q].m; o.m = m; what = "copy"; break; } case 3: { *o.a = *pool[q].a; o.d = pool[q].d; auto m = pool[q].m; o.m = m; what = "assign"; break; }
      case 4: if constexpr (B::rank > 1) { if (!count(o.d)) continue; T v = fresh(); *o.a = v; for (auto& x : o.m) x = v; what = "fill"; break; } else { T v = fresh(); o.a->push_back(v); o.m.push_back(v); ++o.d[0]; what = "push_back"; break; }
      default: { int m = count(o.d); if (!m) continue; int f = (int)c.below(m); T v = fresh(); B::at(*o.a, nth(o.d, f)) = v; o.m[f] = v; what = "set"; } }
    c.note(what + ";"); for (int t = 0; t < 3; ++t) { const A& a = *pool[t].a; VF_CHECK(c, B::dims(a) == pool[t].d, "size", "after " << what << " array " << t << " has size " << show(B::dims(a)) << " instead of " << show(pool[t].d)); if (!count(pool[t].d)) continue; Dims i(B::rank, 0); int m = 0; do { VF_CHECK(c, eq(B::at(a, i), pool[t].m[m]) && eq(B::at(*pool[t].a, i), pool[t].m[m]) && eq(B::raw(a, i), pool[t].m[m]), "element", "after " << what << " element " << show(i) << "+1 of array " << t << " of size " << show(pool[t].d)); ++m; } while (step(pool[t].d, i)); }
  }
  if constexpr (B::rank == 1) { O& o = pool[0]; int n = o.a->size(); multi1d<T> z(n); for (int i = 0; i < n; ++i) z[i] = o.m[i]; A f(z), g(o.m); VF_CHECK(c, f.size() == n && g.size() == n, "size", "conversion size"); for (int i = 1; i <= n; ++i) VF_CHECK(c, eq(f[i], o.m[i - 1]) && eq(g[i], o.m[i - 1]), "convert", "element " << i << " of a converted array");
    if constexpr (std::is_arithmetic<T>::value) { A h = -*o.a, u = T(3) * *o.a, w = *o.a / T(4); VF_CHECK(c, h.size() == n && u.size() == n && w.size() == n, "size", "arithmetic size"); for (int i = 1; i <= n; ++i) VF_CHECK(c, h[i] == -o.m[i - 1] && u[i] == 3 * o.m[i - 1] && w[i] == o.m[i - 1] / 4, "arithmetic", "element " << i); } }
  c.nontrivial();
}
}
VF_TEST("one-based arrays") { bool i = c.chance(1, 2); switch (c.below(5)) { case 0: i ? onebased<OBox1<int>, int>(c) : onebased<OBox1<std::string>, std::string>(c); break; case 1: i ? onebased<OBox2<int>, int>(c) : onebased<OBox2<std::string>, std::string>(c); break; case 2: i ? onebased<OBox3<int>, int>(c) : onebased<OBox3<std::string>, std::string>(c); break; case 3: i ? onebased<OBox4<int>, int>(c) : onebased<OBox4<std::string>, std::string>(c); break; default: i ? onebased<OBox5<int>, int>(c) : onebased<OBox5<std::string>, std::string>(c); } }
}
