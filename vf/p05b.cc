#include "stmt.h"
namespace vf {
VF_TABLE(colour2) {
  // colour vectors
  S2(0,V,M,V, r = a * b) S2(0,V,M,V, r = adj(a) * b) S2(0,V,M,V, r += a * b) S2(0,V,M,V, r += adj(a) * b) S2(0,V,M,V, r -= a * b) S2(0,V,M,V, r -= adj(a) * b) S2(0,V,M,V, r = transpose(a) * b) S2(0,V,M,V, r = conj(a) * conj(b))
  S2(0,V,V,V, r = a + b) S2(0,V,V,V, r = a - b) S1(0,V,V, r = -a) S1(0,V,V, r = a) S1(0,V,V, r += a) S1(0,V,V, r -= a) S1(0,V,V, r = conj(a)) S1(0,V,V, r = timesI(a)) S1(0,V,V, r = timesMinusI(a))
  S2(0,V,C,V, r = a * b) S2(0,V,V,C, r = a * b) S2(0,V,R,V, r = a * b) S2(0,V,V,R, r = a * b) S2(NZ,V,V,C, r = a / b) S2(NZ,V,V,R, r = a / b) S2(0,V,sC,V, r = a * b) S2(0,V,V,sR, r = a * b) S2(NZ,V,V,sR, r = a / b)
  S2(0,V,sM,V, r = a * b) S2(0,V,sM,V, r = adj(a) * b) S2(0,V,M,sV, r = a * b) S1(0,V,C, r *= a) S1(0,V,R, r *= a) S1(NZ,V,sC, r /= a) S1(0,V,sV, r = a) S1(0,V,sV, r += a)
  S2(0,C,V,V, r = localInnerProduct(a, b)) S2(0,R,V,V, r = localInnerProductReal(a, b)) S1(0,R,V, r = localNorm2(a)) S2(0,M,V,V, r = outerProduct(a, b)) S2(0,M,V,V, r += outerProduct(a, b)) S3(0,M,V,V,M, r = e * outerProduct(a, b)) S3(0,V,M,M,V, r = a * b * e) S3(0,V,M,M,V, r = (a + b) * e) S3(0,V,M,V,V, r = a * b - e) S3(0,V,M,V,V, r = a * (b + e)) S2(0,C,V,V, r = localColorInnerProduct(a, b))
  S2(0,C,V,V, r = trace(outerProduct(a, b)))
  // complex
  S2(0,C,C,C, r = a + b) S2(0,C,C,C, r = a - b) S2(0,C,C,C, r = a * b) S2(NZ,C,C,C, r = a / b) S1(0,C,C, r = -a) S1(0,C,C, r = conj(a)) S1(0,C,C, r = adj(a)) S1(0,C,C, r = transpose(a)) S1(0,C,C, r = trace(a)) S1(0,R,C, r = real(a)) S1(0,R,C, r = imag(a)) S2(0,C,R,R, r = cmplx(a, b)) S1(0,C,C, r = timesI(a)) S1(0,C,C, r = timesMinusI(a)) S1(0,R,C, r = localNorm2(a)) S2(0,C,C,C, r = localInnerProduct(a, b)) S2(0,R,C,C, r = localInnerProductReal(a, b))
  S2(0,C,C,R, r = a + b) S2(0,C,R,C, r = a + b) S2(0,C,C,R, r = a - b) S2(0,C,R,C, r = a - b) S2(0,C,C,R, r = a * b) S2(0,C,R,C, r = a * b) S2(NZ,C,C,R, r = a / b) S2(NZ,C,R,C, r = a / b) S2(0,C,C,C, r = adj(a) * b) S2(0,C,C,C, r = a * adj(b)) S2(0,C,C,C, r = adj(a) * adj(b)) S2(0,C,C,C, r = conj(a) * b) S2(0,C,C,C, r += a * b) S2(0,C,C,C, r -= adj(a) * b)
  S1(0,C,C, r += a) S1(0,C,C, r -= a) S1(0,C,C, r *= a) S1(NZ,C,C, r /= a) S1(0,C,R, r += a) S1(0,C,R, r -= a) S1(0,C,R, r *= a) S1(NZ,C,R, r /= a) S1(0,C,R, r = a) S1(0,C,sC, r = a) S1(0,C,sR, r = a) S1(NZ,C,sC, r /= a) S1(0,C,sC, r *= a) S1(0,C,sR, r -= a) S1(0,C,sC, r += a)
  S1(0,C,C, r = a + 1) S1(0,C,C, r = 2 - a) S1(0,C,C, r = a * 3) S1(NZ,C,C, r = 1.0 / a) S2(NZ,C,sC,C, r = a / b) S2(NZ,C,C,sC, r = a / b) S2(0,C,sC,C, r = a - b) S2(0,C,C,sR, r = a + b) S2(0,C,sR,C, r = a * b) S2(0,C,R,R, r = cmplx(a, b) * cmplx(b, a)) S2(0,C,sR,R, r = cmplx(a, b)) S1(0,C,R, r = timesI(a)) S1(0,C,R, r = timesMinusI(a)) S2(0,R,C,C, r = real(a * conj(b))) S2(0,R,C,C, r = imag(a * b)) S1(0,R,R, r = localNorm2(a)) S2(0,R,R,R, r = localInnerProduct(a, b))
  // scalar objects
  S2(0,sM,sM,sM, r = a * b) S2(0,sM,sM,sM, r = adj(a) * b) S2(0,sM,sM,sM, r = a * adj(b) + b) S2(0,sM,sM,sM, r = a - b) S1(0,sC,sM, r = trace(a)) S1(0,sR,sM, r = localNorm2(a)) S1(0,sM,sM, r = transpose(a)) S2(0,sV,sM,sV, r = a * b) S2(0,sV,sM,sV, r = adj(a) * b) S2(0,sM,sV,sV, r = outerProduct(a, b)) S2(0,sC,sV,sV, r = localInnerProduct(a, b)) S2(0,sC,sC,sC, r = a * b) S2(NZ,sC,sC,sC, r = a / b) S2(0,sC,sR,sR, r = cmplx(a, b)) S1(0,sR,sC, r = imag(a)) S1(0,sM,sM, r += a) S2(0,sM,sC,sM, r = a * b) S1(0,sM,sC, r = a) S1(0,sC,sC, r = timesI(a))
  S1(0,sM,sM, r = a) S1(0,sC,sC, r *= a) S1(NZ,sC,sC, r /= a) S1(0,sM,sR, r -= a)
}
}
