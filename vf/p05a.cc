#include "stmt.h"
namespace vf {
VF_TABLE(colour) {
  // colour matrices
  S2(0,M,M,M, r = a + b) S2(0,M,M,M, r = a - b) S2(0,M,M,M, r = a * b) S1(0,M,M, r = -a) S1(0,M,M, r = a) S1(0,M,M, r = +a)
  S2(0,M,M,M, r += a * b) S2(0,M,M,M, r -= a * b) S1(0,M,M, r += a) S1(0,M,M, r -= a)
  S1(0,M,M, r = adj(a)) S1(0,M,M, r = transpose(a)) S1(0,M,M, r = conj(a)) S1(0,M,M, r = timesI(a)) S1(0,M,M, r = timesMinusI(a))
  S1(0,C,M, r = trace(a)) S1(0,R,M, r = realTrace(a)) S1(0,R,M, r = imagTrace(a)) S1(0,C,M, r = traceColor(a)) S1(0,R,M, r = localNorm2(a))
  S2(0,C,M,M, r = localInnerProduct(a, b)) S2(0,R,M,M, r = localInnerProductReal(a, b)) S2(0,C,M,M, r = trace(a * b)) S2(0,C,M,M, r = trace(adj(a) * b)) S2(0,C,M,M, r = trace(a * adj(b)))
  S2(0,R,M,M, r = real(trace(a * adj(b)))) S2(0,R,M,M, r = imag(traceColor(adj(a) * b)))
  S2(0,M,M,M, r = adj(a) * b) S2(0,M,M,M, r = a * adj(b)) S2(0,M,M,M, r = adj(a) * adj(b)) S2(0,M,M,M, r = transpose(a) * b) S2(0,M,M,M, r = conj(a) * transpose(b))
  S2(0,M,M,M, r += adj(a) * b) S2(0,M,M,M, r += a * adj(b)) S2(0,M,M,M, r += adj(a) * adj(b)) S2(0,M,M,M, r -= adj(a) * b) S2(0,M,M,M, r -= a * adj(b)) S2(0,M,M,M, r -= adj(a) * adj(b))
  S3(0,M,M,M,M, r = a * b * e) S3(0,M,M,M,M, r = a * b + e) S3(0,M,M,M,M, r = a * (b - e)) S3(0,M,M,M,M, r = adj(a * b) - e) S3(0,M,M,M,M, r = (a + b) * adj(e)) S3(0,M,M,M,M, r = a * adj(b) * e) S3(0,M,M,M,M, r = -(a * b) + transpose(e))
  S2(0,M,C,M, r = a * b) S2(0,M,M,C, r = a * b) S2(0,M,R,M, r = a * b) S2(0,M,M,R, r = a * b) S2(NZ,M,M,R, r = a / b) S2(NZ,M,M,C, r = a / b)
  S2(0,M,sC,M, r = a * b) S2(0,M,M,sC, r = a * b) S2(0,M,sR,M, r = a * b) S2(0,M,M,sR, r = a * b) S2(NZ,M,M,sR, r = a / b) S2(NZ,M,M,sC, r = a / b)
  S2(0,M,sM,M, r = a * b) S2(0,M,M,sM, r = a * b) S2(0,M,sM,M, r = a + b) S2(0,M,M,sM, r = a - b) S2(0,M,sM,M, r = adj(a) * b) S2(0,M,sM,M, r += a * adj(b))
  S2(0,M,M,C, r = a + b) S2(0,M,C,M, r = a - b) S2(0,M,M,R, r = a + b) S2(0,M,R,M, r = a - b) S2(0,M,M,sC, r = a - b) S2(0,M,sR,M, r = a + b) S1(0,M,M, r = a + 1.5) S1(0,M,M, r = 2.0 - a) S1(0,M,M, r = 2 * a) S1(0,M,M, r = a * 0.5) S1(0,M,M, r = a / 4.0)
  S1(0,M,C, r = a) S1(0,M,R, r = a) S1(0,M,sC, r = a) S1(0,M,sR, r = a) S1(0,M,sM, r = a) S0(0,M, r = 2.0) S0(0,M, r = -1) S1(0,M,C, r += a) S1(0,M,R, r -= a) S1(0,M,C, r *= a) S1(0,M,R, r *= a) S1(NZ,M,C, r /= a) S1(NZ,M,R, r /= a) S1(0,M,sC, r *= a) S1(0,M,sR, r *= a) S1(NZ,M,sR, r /= a) S1(NZ,M,sC, r /= a) S1(0,M,sR, r += a) S1(0,M,sC, r -= a) S1(0,M,sM, r += a) S1(0,M,sM, r -= a) S0(0,M, r *= 3.0) S0(0,M, r += 1.25)
  S1(0,M,M, r = a - adj(a)) S1(0,M,M, r = a - 0.5 * trace(a)) S1(0,M,M, r = timesI(adj(a)) * a)
}
}
