// The documented gamma matrices (manual, section on spin conventions) and their products.
#ifndef VF_DIRAC_H
#define VF_DIRAC_H
#include "stmt.h"
namespace vf {
inline Ten gmat(const int (*e)[3]) {         // row -> column, re, im
  Ten t(4, 4, 1, 1); for (int i = 0; i < 4; ++i) t.at(i, e[i][0], 0, 0) = Num(e[i][1], e[i][2]); return t; }
inline Ten gamma_basis(int mu, bool dp) {
  static const int ch[4][4][3] = {{{3, 0, 1}, {2, 0, 1}, {1, 0, -1}, {0, 0, -1}}, {{3, -1, 0}, {2, 1, 0}, {1, 1, 0}, {0, -1, 0}}, {{2, 0, 1}, {3, 0, -1}, {0, 0, -1}, {1, 0, 1}}, {{2, 1, 0}, {3, 1, 0}, {0, 1, 0}, {1, 1, 0}}};
  static const int pd[4][4][3] = {{{3, 0, -1}, {2, 0, -1}, {1, 0, 1}, {0, 0, 1}}, {{3, -1, 0}, {2, 1, 0}, {1, 1, 0}, {0, -1, 0}}, {{2, 0, -1}, {3, 0, 1}, {0, 0, 1}, {1, 0, -1}}, {{0, 1, 0}, {1, 1, 0}, {2, -1, 0}, {3, -1, 0}}};
  return gmat(dp ? pd[mu] : ch[mu]);
}
inline Ten gamma_ref(int n, bool dp = false) {
  Ten g(4, 4, 1, 1); for (int i = 0; i < 4; ++i) g.at(i, i, 0, 0) = Num(1);
  for (int mu = 0; mu < 4; ++mu) if (n >> mu & 1) g = g * gamma_basis(mu, dp);
  for (auto& x : g.v) x.m = x.a();
  return g;
}
template <int N, int m> Ref operator*(const GammaConst<N, m>&, const Ref& b) { return Ref(std::vector<Ten>(1, gamma_ref(m))) * b; }
struct QG { GammaType<Ns> operator()(int n) const { return GammaType<Ns>(n); } };
struct QGD { GammaTypeDP<Ns> operator()(int n) const { return GammaTypeDP<Ns>(n); } };
struct RG { bool dp; Ref operator()(int n) const { return Ref(std::vector<Ten>(1, gamma_ref(n, dp))); } };
inline Ten chi(const Ten& a, int s) { Ten g = gamma_ref(15); Ten p(4, 4, 1, 1); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { Num x = g.at(i, j, 0, 0); p.at(i, j, 0, 0) = Num(0.5L * ((i == j) + s * x.re), 0.5L * s * x.im); } return p * a; }
inline Ref chiralProjectPlus(const Ref& a) { return r1(a, [](const Ten& x) { return chi(x, 1); }); }
inline Ref chiralProjectMinus(const Ref& a) { return r1(a, [](const Ten& x) { return chi(x, -1); }); }
}
#endif
