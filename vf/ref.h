// Reference evaluator: fields of complex spin x colour tensors in long double.
// Each entry carries m, a bound on the magnitudes that met in its computation:
// the error of any reasonable evaluation order is below K*eps*m.
#ifndef VF_REF_H
#define VF_REF_H
#include "q.h"
namespace vf {
typedef long double ld;
struct Num {
  ld re = 0, im = 0, m = 0;
  Num() {}
  Num(ld r, ld i = 0) : re(r), im(i), m(std::fabs(r) + std::fabs(i)) {}
  Num(ld r, ld i, ld mm) : re(r), im(i), m(mm) {}
  ld a() const { return std::fabs(re) + std::fabs(im); }
};
inline Num operator+(Num a, Num b) { return Num(a.re + b.re, a.im + b.im, a.m + b.m); }
inline Num operator-(Num a, Num b) { return Num(a.re - b.re, a.im - b.im, a.m + b.m); }
inline Num operator-(Num a) { return Num(-a.re, -a.im, a.m); }
inline Num operator*(Num a, Num b) { return Num(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, a.m * b.m); }
inline Num inv(Num b) { ld n = b.re * b.re + b.im * b.im; ld ab = std::sqrt(n); return Num(b.re / n, -b.im / n, 1 / ab + 2 * b.m / n); }
inline Num operator/(Num a, Num b) { ld n = b.re * b.re + b.im * b.im, ab = std::sqrt(n); Num r = a * Num(b.re / n, -b.im / n, 0); r.m = 2 * a.m / ab + 2 * a.a() * b.m / n; return r; }
inline Num conj(Num a) { return Num(a.re, -a.im, a.m); }

struct Ten {
  int sr = 1, sc = 1, cr = 1, cc = 1;
  std::vector<Num> v;
  Ten() : v(1) {}
  Ten(int a, int b, int c, int d) : sr(a), sc(b), cr(c), cc(d), v(a * b * c * d) {}
  Ten(Num n) : v(1, n) {}
  Num& at(int a, int b, int c, int d) { return v[((a * sc + b) * cr + c) * cc + d]; }
  const Num& at(int a, int b, int c, int d) const { return v[((a * sc + b) * cr + c) * cc + d]; }
  // entry with scalars acting as multiples of the identity
  Num bc(int a, int b, int c, int d) const {
    bool s1 = sr == 1 && sc == 1, c1 = cr == 1 && cc == 1;
    if (s1 && a != b) return Num();
    if (c1 && c != d) return Num();
    return at(s1 ? 0 : a, s1 ? 0 : b, c1 ? 0 : c, c1 ? 0 : d);
  }
};
// bc against vectors: a scalar never meets a vector in a sum, so no rule needed.
template <class F> Ten zip(const Ten& a, const Ten& b, F f) {
  Ten r(std::max(a.sr, b.sr), std::max(a.sc, b.sc), std::max(a.cr, b.cr), std::max(a.cc, b.cc));
  for (int i = 0; i < r.sr; ++i) for (int j = 0; j < r.sc; ++j) for (int k = 0; k < r.cr; ++k) for (int l = 0; l < r.cc; ++l) r.at(i, j, k, l) = f(a.bc(i, j, k, l), b.bc(i, j, k, l));
  return r;
}
template <class F> Ten mapt(const Ten& a, F f) { Ten r = a; for (auto& x : r.v) x = f(x); return r; }
inline Ten operator+(const Ten& a, const Ten& b) { return zip(a, b, [](Num x, Num y) { return x + y; }); }
inline Ten operator-(const Ten& a, const Ten& b) { return zip(a, b, [](Num x, Num y) { return x - y; }); }
inline Ten operator-(const Ten& a) { return mapt(a, [](Num x) { return -x; }); }
inline Ten operator*(const Ten& a, const Ten& b) {
  bool as = a.sr == 1 && a.sc == 1, bs = b.sr == 1 && b.sc == 1, ac = a.cr == 1 && a.cc == 1, bcc = b.cr == 1 && b.cc == 1;
  int sr = as ? b.sr : a.sr, sc = bs ? a.sc : b.sc, cr = ac ? b.cr : a.cr, cc = bcc ? a.cc : b.cc;
  int ks = (as || bs) ? 1 : a.sc, kc = (ac || bcc) ? 1 : a.cc;
  Ten r(sr, sc, cr, cc);
  for (int i = 0; i < sr; ++i) for (int j = 0; j < sc; ++j) for (int k = 0; k < cr; ++k) for (int l = 0; l < cc; ++l) {
    Num t;
    for (int p = 0; p < ks; ++p) for (int q = 0; q < kc; ++q) {
      const Num& x = a.at(as ? 0 : i, as ? 0 : (bs ? j : p), ac ? 0 : k, ac ? 0 : (bcc ? l : q));
      const Num& y = b.at(bs ? 0 : (as ? i : p), bs ? 0 : j, bcc ? 0 : (ac ? k : q), bcc ? 0 : l);
      t = t + x * y;
    }
    r.at(i, j, k, l) = t;
  }
  return r;
}
inline Ten operator/(const Ten& a, const Ten& b) { Num d = b.v[0]; return mapt(a, [d](Num x) { return x / d; }); }
inline Ten tr_(const Ten& a, bool s, bool c, bool cj) {
  Ten r(s ? a.sc : a.sr, s ? a.sr : a.sc, c ? a.cc : a.cr, c ? a.cr : a.cc);
  for (int i = 0; i < a.sr; ++i) for (int j = 0; j < a.sc; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l) {
    Num x = a.at(i, j, k, l); if (cj) x = conj(x);
    r.at(s ? j : i, s ? i : j, c ? l : k, c ? k : l) = x;
  }
  return r;
}
inline Ten adj(const Ten& a) { return tr_(a, true, true, true); }
inline Ten transpose(const Ten& a) { return tr_(a, true, true, false); }
inline Ten transposeSpin(const Ten& a) { return tr_(a, true, false, false); }
inline Ten transposeColor(const Ten& a) { return tr_(a, false, true, false); }
inline Ten conj(const Ten& a) { return mapt(a, [](Num x) { return conj(x); }); }
inline Ten ptrace(const Ten& a, bool s, bool c) {
  Ten r(s ? 1 : a.sr, s ? 1 : a.sc, c ? 1 : a.cr, c ? 1 : a.cc);
  for (int i = 0; i < a.sr; ++i) for (int j = 0; j < a.sc; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l) {
    if ((s && i != j) || (c && k != l)) continue;
    Num& d = r.at(s ? 0 : i, s ? 0 : j, c ? 0 : k, c ? 0 : l); d = d + a.at(i, j, k, l);
  }
  return r;
}
inline Ten trace(const Ten& a) { return ptrace(a, true, true); }
inline Ten traceSpin(const Ten& a) { return ptrace(a, true, false); }
inline Ten traceColor(const Ten& a) { return ptrace(a, false, true); }
inline Ten real(const Ten& a) { return mapt(a, [](Num x) { return Num(x.re, 0, x.m); }); }
inline Ten imag(const Ten& a) { return mapt(a, [](Num x) { return Num(x.im, 0, x.m); }); }
inline Ten timesI(const Ten& a) { return mapt(a, [](Num x) { return Num(-x.im, x.re, x.m); }); }
inline Ten timesMinusI(const Ten& a) { return mapt(a, [](Num x) { return Num(x.im, -x.re, x.m); }); }
inline Ten realTrace(const Ten& a) { return real(trace(a)); }
inline Ten imagTrace(const Ten& a) { return imag(trace(a)); }
inline Ten cmplx(const Ten& a, const Ten& b) { return zip(a, b, [](Num x, Num y) { return Num(x.re, y.re, x.m + y.m); }); }
inline Ten localInnerProduct(const Ten& a, const Ten& b) {
  if (a.sr != b.sr || a.sc != b.sc || a.cr != b.cr || a.cc != b.cc) return trace(adj(a) * b);   // multiples of the identity
  Num t; for (size_t i = 0; i < a.v.size(); ++i) t = t + conj(a.v[i]) * b.v[i]; return Ten(t); }
inline Ten localInnerProductReal(const Ten& a, const Ten& b) { return real(localInnerProduct(a, b)); }
inline Ten localNorm2(const Ten& a) { return real(localInnerProduct(a, a)); }
inline Ten outerProduct(const Ten& a, const Ten& b) {   // vectors in every level they carry
  Ten r(a.sr, b.sr, a.cr, b.cr);
  for (int i = 0; i < a.sr; ++i) for (int j = 0; j < b.sr; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < b.cr; ++l) r.at(i, j, k, l) = a.at(i, 0, k, 0) * conj(b.at(j, 0, l, 0));
  return r;
}
inline Ten traceMultiply(const Ten& a, const Ten& b) { return trace(a * b); }
inline Ten traceColorMultiply(const Ten& a, const Ten& b) { return traceColor(a * b); }
inline Ten traceSpinMultiply(const Ten& a, const Ten& b) { return traceSpin(a * b); }
// colour-contracted, spin-outer: sum over colour of conj(a) b
inline Ten localColorInnerProduct(const Ten& a, const Ten& b) {
  bool av = a.cc == 1;
  Ten r(a.sr > b.sr ? a.sr : b.sr, 1, 1, 1); (void)av;
  for (int i = 0; i < r.sr; ++i) { Num t; for (int k = 0; k < a.cr; ++k) t = t + conj(a.at(a.sr == 1 ? 0 : i, 0, k, 0)) * b.at(b.sr == 1 ? 0 : i, 0, k, 0); r.at(i, 0, 0, 0) = t; }
  return r;
}

struct Ref {                       // one tensor per site, or a single one
  std::vector<Ten> s;
  Ref() {}
  Ref(double d) : s(1, Ten(Num((ld)d))) {}
  Ref(std::vector<Ten> v) : s(std::move(v)) {}
  const Ten& at(size_t i) const { return s[s.size() == 1 ? 0 : i]; }
};
template <class F> Ref r1(const Ref& a, F f) { Ref r; r.s.reserve(a.s.size()); for (auto& t : a.s) r.s.push_back(f(t)); return r; }
template <class F> Ref r2(const Ref& a, const Ref& b, F f) { Ref r; size_t n = std::max(a.s.size(), b.s.size()); r.s.reserve(n); for (size_t i = 0; i < n; ++i) r.s.push_back(f(a.at(i), b.at(i))); return r; }
#define VF_R1(n) inline Ref n(const Ref& a) { return r1(a, [](const Ten& x) { return n(x); }); }
#define VF_R2(n) inline Ref n(const Ref& a, const Ref& b) { return r2(a, b, [](const Ten& x, const Ten& y) { return n(x, y); }); }
#define VF_RO(o) inline Ref operator o(const Ref& a, const Ref& b) { return r2(a, b, [](const Ten& x, const Ten& y) { return x o y; }); }
VF_RO(+) VF_RO(-) VF_RO(*) VF_RO(/)
inline Ref operator-(const Ref& a) { return r1(a, [](const Ten& x) { return -x; }); }
inline Ref operator+(const Ref& a) { return a; }
VF_R1(adj) VF_R1(transpose) VF_R1(transposeSpin) VF_R1(transposeColor) VF_R1(conj) VF_R1(trace) VF_R1(traceSpin) VF_R1(traceColor)
VF_R1(real) VF_R1(imag) VF_R1(timesI) VF_R1(timesMinusI) VF_R1(realTrace) VF_R1(imagTrace) VF_R1(localNorm2)
VF_R2(cmplx) VF_R2(localInnerProduct) VF_R2(localInnerProductReal) VF_R2(outerProduct) VF_R2(traceMultiply) VF_R2(traceColorMultiply) VF_R2(traceSpinMultiply) VF_R2(localColorInnerProduct)
inline Ref shift(const Ref& a, int sign, int mu) {
  Ref r = a; if (a.s.size() == 1) return r;
  for (int l = 0; l < geo().vol; ++l) { int x[Nd]; coord_of(l, x); x[mu] = (x[mu] + sign + geo().L[mu]) % geo().L[mu]; r.s[l] = a.s[lex_of(x)]; }
  return r;
}
inline Ref mapref(const Ref& a, const std::vector<int>& src) { Ref r = a; for (int l = 0; l < geo().vol; ++l) r.s[l] = a.s[src[l]]; return r; }

// Destination with a mask
struct RefDst {
  Ref& r; const std::vector<char>* in;
  void put(size_t i, const Ten& t) const {
    Ten& d = r.s[i];
    for (int a = 0; a < d.sr; ++a) for (int b = 0; b < d.sc; ++b) for (int c = 0; c < d.cr; ++c) for (int e = 0; e < d.cc; ++e) d.at(a, b, c, e) = t.bc(a, b, c, e);
  }
  template <class F> const RefDst& upd(F f) const { for (size_t i = 0; i < r.s.size(); ++i) if (!in || (*in)[i]) put(i, f(i)); return *this; }
  const RefDst& operator=(const Ref& b) const { return upd([&](size_t i) { return b.at(i); }); }
  const RefDst& operator+=(const Ref& b) const { return upd([&](size_t i) { return r.s[i] + b.at(i); }); }
  const RefDst& operator-=(const Ref& b) const { return upd([&](size_t i) { return r.s[i] - b.at(i); }); }
  const RefDst& operator*=(const Ref& b) const { return upd([&](size_t i) { return r.s[i] * b.at(i); }); }
  const RefDst& operator/=(const Ref& b) const { return upd([&](size_t i) { return r.s[i] / b.at(i); }); }
};
inline RefDst operator<<(RefDst d, int) { return d; }

// ---- transfer between QDP++ objects and references -------------------------
template <class Q> Ref load(Q& q) {
  typedef Dim<typename Obj<Q>::elem> D; typedef typename Words<Q>::type W;
  Ref r; r.s.assign(Obj<Q>::sites(), Ten(D::sr, D::sc, D::cr, D::cc));
  walkall(q, [&](int l, Ix i, W& re, W* im) { r.s[l].at(i.sr, i.sc, i.cr, i.cc) = Num((ld)re, im ? (ld)*im : 0); });
  return r;
}
struct Cmp { double K = 64; double eps = 0; };
template <class W> constexpr double eps_of() { return std::is_same<W, float>::value ? 1.1920929e-07 : std::is_same<W, double>::value ? 2.220446049250313e-16 : 0; }
// Compares the sites of `in`; eps of the coarsest word involved.
template <class Q> void compare(Case& c, Q& q, const Ref& r, const std::vector<char>* in, const std::string& what, double eps, double K = 64, const char* sig = "value") {
  typedef Dim<typename Obj<Q>::elem> D; typedef typename Words<Q>::type W;
  const ld tiny = 1e-30L;
  walkall(q, [&](int l, Ix i, W& re, W* im) {
    if (in && !(*in)[l]) return;
    const Num& e = r.at(l).at(i.sr, i.sc, i.cr, i.cc);
    ld tol = K * eps * e.m + tiny;
    bool ok = std::fabs((ld)re - e.re) <= tol && (!im || std::fabs((ld)*im - e.im) <= tol);
    if (!ok) {
      std::ostringstream o; o.precision(9);
      o << what << ": " << where_str(l, i) << " got (" << (double)re << "," << (im ? (double)*im : 0.0) << ") expected (" << (double)e.re << "," << (double)e.im << ") tolerance " << (double)tol;
      c.fail(sig, o.str());
    }
  });
}
}  // namespace vf
#endif
