// The double-precision SU(3) kernels called directly on arrays of matrices.
#include "stmt.h"
#if defined(QDP_USE_SSE)
#include "scalarsite_sse/sse_linalg_mm_su3_double.h"
namespace vf {
typedef std::complex<long double> Z;
VF_TEST("double matrix kernels", 6) {
  typedef void (*K3)(REAL64*, REAL64*, REAL64*, int); typedef void (*K4)(REAL64*, REAL64*, REAL64*, REAL64*, int);
  static const struct { const char* nm; K3 f; int ja, jb; bool any; } eq[] = {{"eq_mm", ssed_m_eq_mm, 0, 0, 0}, {"eq_mm_u", ssed_m_eq_mm_u, 0, 0, 1}, {"eq_mh", ssed_m_eq_mh, 0, 1, 0}, {"eq_mh_u", ssed_m_eq_mh_u, 0, 1, 1}, {"eq_hm", ssed_m_eq_hm, 1, 0, 0}, {"eq_hm_u", ssed_m_eq_hm_u, 1, 0, 1}, {"eq_hh", ssed_m_eq_hh, 1, 1, 0}, {"eq_hh_u", ssed_m_eq_hh_u, 1, 1, 1}};
  static const struct { const char* nm; K4 f; int ja, jb; bool any; } pe[] = {{"peq_amm", ssed_m_peq_amm, 0, 0, 0}, {"peq_amm_u", ssed_m_peq_amm_u, 0, 0, 1}, {"peq_amh", ssed_m_peq_amh, 0, 1, 0}, {"peq_amh_u", ssed_m_peq_amh_u, 0, 1, 1}, {"peq_ahm", ssed_m_peq_ahm, 1, 0, 0}, {"peq_ahm_u", ssed_m_peq_ahm_u, 1, 0, 1}, {"peq_ahh", ssed_m_peq_ahh, 1, 1, 0}, {"peq_ahh_u", ssed_m_peq_ahh_u, 1, 1, 1}};
  int op = (int)c.below(22), n = c.chance(1, 4) ? 1 : (int)c.below(30), kind = c.chance(1, 4) ? 0 : c.chance(1, 3) ? 5 : 1; uint64_t s = c.seed();
  bool any = op >= 16 || (op < 8 ? eq[op].any : pe[op - 8].any); int shift = any ? (int)c.below(8) : 0;   // the _u forms take any alignment
  static const char* on[] = {"eq_scal_m", "muleq_scal", "peq_m", "meq_m", "peq_h", "meq_h"}; std::string nm = op < 8 ? eq[op].nm : op < 16 ? pe[op - 8].nm : on[op - 16];
  c.note(VF_STR("ssed_m_" << nm << " on " << n << " matrices"));
  std::vector<double> raw[3]; double* p[3]; size_t N = 18 * (size_t)n; std::vector<double> was[3];
  for (int k = 0; k < 3; ++k) { raw[k].assign(N + 30, -77.125); p[k] = raw[k].data() + 9; while ((uintptr_t)p[k] & 15) ++p[k]; if (shift >> k & 1) ++p[k]; for (size_t i = 0; i < N; ++i) p[k][i] = value(s + k, kind, i); was[k] = raw[k]; }
  double a = value(s + 5, kind, 0); size_t o[3]; for (int k = 0; k < 3; ++k) o[k] = p[k] - raw[k].data();
  double aw[2] = {a, 0};
  if (op < 8) eq[op].f(p[0], p[1], p[2], n); else if (op < 16) pe[op - 8].f(p[0], aw, p[1], p[2], n);
  else switch (op) { case 16: ssed_m_eq_scal_m(p[0], aw, p[1], n); break; case 17: ssed_m_muleq_scal(p[0], aw, n); break; case 18: ssed_m_peq_m(p[0], p[1], n); break; case 19: ssed_m_meq_m(p[0], p[1], n); break; case 20: ssed_m_peq_h(p[0], p[1], n); break; default: ssed_m_meq_h(p[0], p[1], n); }
  for (int m = 0; m < n; ++m) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    auto el = [&](int k, int x, int y, int adj) { size_t q = o[k] + 18 * (size_t)m + 2 * (adj ? 3 * y + x : 3 * x + y); return Z(was[k][q], adj ? -was[k][q + 1] : was[k][q + 1]); };
    Z w; ld mag = 0;
    if (op < 16) { int ja = op < 8 ? eq[op].ja : pe[op - 8].ja, jb = op < 8 ? eq[op].jb : pe[op - 8].jb; for (int k = 0; k < 3; ++k) { Z t = el(1, i, k, ja) * el(2, k, j, jb); w += t; mag += std::abs(el(1, i, k, ja)) * std::abs(el(2, k, j, jb)); } if (op >= 8) { w = el(0, i, j, 0) + (ld)a * w; mag = std::abs(el(0, i, j, 0)) + std::fabs(a) * mag; } }
    else { Z d = el(0, i, j, 0), x = el(1, i, j, op >= 20); w = op == 16 ? (ld)a * x : op == 17 ? (ld)a * d : op == 18 || op == 20 ? d + x : d - x; mag = std::abs(d) + std::abs(x) * (1 + std::fabs(a)) + std::fabs(a) * std::abs(d); }
    const double* g = p[0] + 18 * m + 2 * (3 * i + j);
    VF_CHECK(c, std::abs(Z(g[0], g[1]) - w) <= 1e-14L * mag, "value", "ssed_m_" << nm << " element (" << i << "," << j << ") of matrix " << m << " of " << n << " is (" << g[0] << "," << g[1] << ") instead of (" << (double)w.real() << "," << (double)w.imag() << ")");
  }
  bool ok = raw[1] == was[1] && raw[2] == was[2]; for (size_t i = 0; i < raw[0].size(); ++i) if (i < o[0] || i >= o[0] + N) ok &= raw[0][i] == was[0][i];
  VF_CHECK(c, ok, "operand", "ssed_m_" << nm << " on " << n << " matrices changed an operand or wrote outside its result");
  c.nontrivial(n > 0);
}
}
#endif
