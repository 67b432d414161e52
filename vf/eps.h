// Contractions written out with the epsilon tensor, on reference tensors.
#ifndef VF_EPS_H
#define VF_EPS_H
#include "stmt.h"
namespace vf {
inline int eps3(int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; }
// sum of eps(i,j,k) eps(i',j',k') a(i,i') b(j,j') over colour, for spin blocks chosen by the caller; result (k',k)
inline void quark_add(Ten& r, int al, int be, const Ten& a, int as, int ac, const Ten& b, int bs, int bc) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) if (int e = eps3(i, j, k))
    for (int i2 = 0; i2 < 3; ++i2) for (int j2 = 0; j2 < 3; ++j2) for (int k2 = 0; k2 < 3; ++k2) if (int e2 = eps3(i2, j2, k2)) {
      Num t = a.at(as, ac, i, i2) * b.at(bs, bc, j, j2); r.at(al, be, k2, k) = e * e2 > 0 ? r.at(al, be, k2, k) + t : r.at(al, be, k2, k) - t; }
}
template <int W> Ten quark(const Ten& a, const Ten& b) {
  Ten r(a.sr, a.sc, 3, 3);
  for (int al = 0; al < a.sr; ++al) for (int be = 0; be < a.sc; ++be) for (int p = 0; p < a.sr; ++p) switch (W) {
    case 13: quark_add(r, al, be, a, p, al, b, p, be); break; case 14: quark_add(r, al, be, a, p, al, b, be, p); break;
    case 23: quark_add(r, al, be, a, al, p, b, p, be); break; case 24: quark_add(r, al, be, a, al, p, b, be, p); break;
    case 12: quark_add(r, al, be, a, p, p, b, al, be); break; case 34: quark_add(r, al, be, a, al, be, b, p, p); break; }
  return r;
}
#define VF_QUARK(N) inline Ten quarkContract##N(const Ten& a, const Ten& b) { return quark<N>(a, b); } VF_R2(quarkContract##N)
VF_QUARK(13) VF_QUARK(14) VF_QUARK(23) VF_QUARK(24) VF_QUARK(12) VF_QUARK(34)
inline Ten colorContract(const Ten& a, const Ten& b, const Ten& c) {     // matrices or vectors in colour, no spin
  Num s; bool m = a.cc == 3;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) if (int e = eps3(i, j, k)) {
    if (!m) { Num t = a.at(0, 0, i, 0) * b.at(0, 0, j, 0) * c.at(0, 0, k, 0); s = e > 0 ? s + t : s - t; continue; }
    for (int i2 = 0; i2 < 3; ++i2) for (int j2 = 0; j2 < 3; ++j2) for (int k2 = 0; k2 < 3; ++k2) if (int e2 = eps3(i2, j2, k2)) { Num t = a.at(0, 0, i, i2) * b.at(0, 0, j, j2) * c.at(0, 0, k, k2); s = e * e2 > 0 ? s + t : s - t; } }
  return Ten(s);
}
inline Ref colorContract(const Ref& a, const Ref& b, const Ref& c) { Ref r; size_t n = std::max(std::max(a.s.size(), b.s.size()), c.s.size()); for (size_t i = 0; i < n; ++i) r.s.push_back(colorContract(a.at(i), b.at(i), c.at(i))); return r; }
inline Ten colorVectorContract(const Ten& a, const Ten& b) { Num s; for (int i = 0; i < a.cr; ++i) s = s + a.at(0, 0, i, 0) * b.at(0, 0, i, 0); return Ten(s); }
inline Ten colorCrossProduct(const Ten& a, const Ten& b) { Ten r(1, 1, 3, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) if (int e = eps3(i, j, k)) { Num t = a.at(0, 0, j, 0) * b.at(0, 0, k, 0); r.at(0, 0, i, 0) = e > 0 ? r.at(0, 0, i, 0) + t : r.at(0, 0, i, 0) - t; } return r; }
VF_R2(colorVectorContract) VF_R2(colorCrossProduct)
}
#endif
