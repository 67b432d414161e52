// The double-precision vector kernels called directly: any length, both sides of their cache threshold.
#include "stmt.h"
#if defined(QDP_USE_SSE)
#include "scalarsite_sse/sse_blas_vaxpy4_double.h"
#include "scalarsite_sse/sse_blas_vaypx4_double.h"
#include "scalarsite_sse/sse_blas_vaxmyz4_double.h"
#include "scalarsite_sse/sse_blas_vaxpbyz4_double.h"
#include "scalarsite_sse/sse_blas_vaxmbyz4_double.h"
#include "scalarsite_sse/sse_blas_vscal4_double.h"
#include "scalarsite_sse/sse_blas_local_sumsq_double.h"
#include "scalarsite_sse/sse_blas_local_vcdot_double.h"
#include "scalarsite_sse/sse_blas_local_vcdot_real_double.h"
namespace vf {
struct Buf {
  std::vector<double> raw; double* p; size_t n; uint64_t tag;
  Buf(size_t n_, uint64_t seed, int kind) : raw(n_ + 20), n(n_), tag(seed) {
    p = raw.data() + 8; while ((uintptr_t)p & 15) ++p;
    for (auto& x : raw) x = -77.125; for (size_t i = 0; i < n; ++i) p[i] = value(seed, kind, i); }
  Buf(const Buf&) = delete;
  bool guards() const { for (const double* q = raw.data(); q < p; ++q) if (*q != -77.125) return false; for (const double* q = p + n; q < raw.data() + raw.size(); ++q) if (*q != -77.125) return false; return true; }
};
VF_TEST("double kernels", 8) {
  static const char* nm[] = {"vaxpy4", "vaxpyz4", "vaypx4", "vaxmy4", "vaxmyz4", "vaxpby4", "vaxpbyz4", "vaxmby4", "vaxmbyz4", "vscal4", "local_sumsq4", "local_vcdot4", "local_vcdot_real4"};
  int op = (int)c.below(13), n = c.chance(1, 4) ? 1360 + (int)c.below(20) : c.chance(1, 6) ? (int)c.below(3000) : (int)c.below(40), kind = c.chance(1, 4) ? 0 : c.chance(1, 3) ? 5 : 1;
  uint64_t s = c.seed(); bool same = c.chance(1, 6);   // the result stored over an operand
  c.note(VF_STR(nm[op] << " on " << n << " spinors" << (same ? ", in place" : "")));
  size_t N = 24 * (size_t)n; Buf x(N, s, kind), y(N, s + 1, kind), z(N, s + 2, kind);
  double a = value(s + 3, kind, 0), b = value(s + 3, kind, 1); std::vector<double> X(x.p, x.p + N), Y(y.p, y.p + N), Z(z.p, z.p + N), W; double r[2] = {0, 0};
  double *zp = z.p; if (same && (op == 1 || op == 4 || op == 6 || op == 8)) zp = c.chance(1, 2) ? x.p : y.p; if (same && op == 9) zp = x.p;
  auto each = [&](auto f) { W.resize(N); for (size_t i = 0; i < N; ++i) W[i] = f(i); };
  double* out = zp; ld sum[2] = {0, 0}, mag = 0;
  switch (op) {
    case 0: vaxpy4(y.p, &a, x.p, n); out = y.p; each([&](size_t i) { return a * X[i] + Y[i]; }); break;
    case 1: vaxpyz4(zp, &a, x.p, y.p, n); each([&](size_t i) { return a * X[i] + Y[i]; }); break;
    case 2: vaypx4(y.p, &a, x.p, n); out = y.p; each([&](size_t i) { return a * Y[i] + X[i]; }); break;
    case 3: vaxmy4(y.p, &a, x.p, n); out = y.p; each([&](size_t i) { return a * X[i] - Y[i]; }); break;
    case 4: vaxmyz4(zp, &a, x.p, y.p, n); each([&](size_t i) { return a * X[i] - Y[i]; }); break;
    case 5: vaxpby4(y.p, &a, x.p, &b, n); out = y.p; each([&](size_t i) { return a * X[i] + b * Y[i]; }); break;
    case 6: vaxpbyz4(zp, &a, x.p, &b, y.p, n); each([&](size_t i) { return a * X[i] + b * Y[i]; }); break;
    case 7: vaxmby4(y.p, &a, x.p, &b, n); out = y.p; each([&](size_t i) { return a * X[i] - b * Y[i]; }); break;
    case 8: vaxmbyz4(zp, &a, x.p, &b, y.p, n); each([&](size_t i) { return a * X[i] - b * Y[i]; }); break;
    case 9: vscal4(zp, &a, x.p, n); each([&](size_t i) { return a * X[i]; }); break;
    default: out = 0;
      for (size_t i = 0; i < N; i += 2) { if (op == 10) { sum[0] += (ld)X[i] * X[i] + (ld)X[i + 1] * X[i + 1]; }
        else { sum[0] += (ld)Y[i] * X[i] + (ld)Y[i + 1] * X[i + 1]; sum[1] += (ld)Y[i] * X[i + 1] - (ld)Y[i + 1] * X[i]; }
        mag += std::fabs((ld)Y[i] * X[i]) + std::fabs((ld)Y[i + 1] * X[i + 1]) + std::fabs((ld)Y[i] * X[i + 1]) + std::fabs((ld)Y[i + 1] * X[i]) + (op == 10 ? (ld)X[i] * X[i] + (ld)X[i + 1] * X[i + 1] : 0); }
      if (op == 10) local_sumsq4(r, x.p, n); else if (op == 11) local_vcdot4(r, y.p, x.p, n); else local_vcdot_real4(r, y.p, x.p, n);
      for (int k = 0; k < (op == 11 ? 2 : 1); ++k) VF_CHECK(c, std::fabs(r[k] - sum[k]) <= 1e-15L * (N + 10) * mag + 1e-300L, "value", nm[op] << " of " << n << " spinors gave " << r[k] << " instead of " << (double)sum[k]);
      VF_CHECK(c, op == 11 || r[1] == 0, "beyond", nm[op] << " wrote beyond its result");
  }
  if (out) for (size_t i = 0; i < N; ++i) VF_CHECK(c, std::fabs(out[i] - W[i]) <= 4e-15 * (std::fabs(a * X[i]) + std::fabs(b * Y[i]) + std::fabs(Y[i]) + std::fabs(a * Y[i]) + std::fabs(X[i])), "value", nm[op] << " of " << n << " spinors: word " << i << " is " << out[i] << " instead of " << W[i]);
  VF_CHECK(c, x.guards() && y.guards() && z.guards(), "beyond", nm[op] << " on " << n << " spinors wrote outside its operands");
  auto same_as = [&](Buf& q, std::vector<double>& Q) { return q.p == out || N == 0 || !memcmp(q.p, Q.data(), 8 * N); };
  VF_CHECK(c, same_as(x, X) && same_as(y, Y) && same_as(z, Z), "operand", nm[op] << " on " << n << " spinors changed an operand");
  c.nontrivial(n > 0);
}
}
#endif
