#include "stmt.h"
namespace vf {
VF_TABLE(fermions) {
  S2(0,F,F,F, r = a + b) S2(0,F,F,F, r = a - b) S1(0,F,F, r = -a) S1(0,F,F, r = a) S1(0,F,F, r += a) S1(0,F,F, r -= a) S1(0,F,F, r = conj(a)) S1(0,F,F, r = timesI(a)) S1(0,F,F, r = timesMinusI(a))
  S2(0,F,M,F, r = a * b) S2(0,F,M,F, r = adj(a) * b) S2(0,F,M,F, r += a * b) S2(0,F,M,F, r += adj(a) * b) S2(0,F,M,F, r -= a * b) S2(0,F,M,F, r -= adj(a) * b) S2(0,F,S,F, r = a * b) S2(0,F,S,F, r = adj(a) * b) S2(0,F,P,F, r = a * b) S2(0,F,P,F, r = adj(a) * b)
  S2(0,F,C,F, r = a * b) S2(0,F,F,C, r = a * b) S2(0,F,R,F, r = a * b) S2(0,F,F,R, r = a * b) S2(NZ,F,F,C, r = a / b) S2(NZ,F,F,R, r = a / b) S2(0,F,sC,F, r = a * b) S2(0,F,F,sC, r = a * b) S2(0,F,sR,F, r = a * b) S2(0,F,F,sR, r = a * b) S2(NZ,F,F,sR, r = a / b) S2(NZ,F,F,sC, r = a / b)
  S1(0,F,C, r *= a) S1(0,F,R, r *= a) S1(NZ,F,C, r /= a) S1(NZ,F,R, r /= a) S1(0,F,sR, r *= a) S1(0,F,sC, r *= a) S1(NZ,F,sC, r /= a) S1(0,F,sF, r = a) S1(0,F,sF, r += a) S1(0,F,sF, r -= a) S2(0,F,sM,F, r = a * b) S2(0,F,sM,F, r = adj(a) * b) S2(0,F,M,sF, r = a * b) S2(0,F,sS,F, r = a * b) S2(0,F,sP,F, r = a * b) S1(0,F,F, r = 2.0 * a) S1(0,F,F, r = a * 3) S1(0,F,F, r = a / 2.0)
  S2(0,C,F,F, r = localInnerProduct(a, b)) S2(0,R,F,F, r = localInnerProductReal(a, b)) S1(0,R,F, r = localNorm2(a)) S2(0,P,F,F, r = outerProduct(a, b)) S2(0,P,F,F, r += outerProduct(a, b)) S2(0,C,F,F, r = trace(outerProduct(a, b))) S2(0,M,F,F, r = traceSpin(outerProduct(a, b))) S2(0,S,F,F, r = traceColor(outerProduct(a, b)))
  S3(0,F,M,M,F, r = a * b * e) S3(0,F,M,F,F, r = a * (b + e)) S3(0,F,M,F,F, r = a * b - e) S3(0,F,C,F,F, r = a * b + e) S3(0,F,M,S,F, r = a * (b * e)) S3(0,F,M,S,F, r = b * (a * e)) S3(0,F,sR,F,F, r = a * b + e) S3(0,F,M,F,F, r = adj(a) * b + timesI(e)) S3(0,F,P,M,F, r = a * (b * e)) S3(0,F,M,F,C, r = e * (a * b))
  S2(0,H,M,H, r = a * b) S2(0,H,M,H, r = adj(a) * b) S2(0,H,H,H, r = a + b) S2(0,H,H,H, r = a - b) S1(0,H,H, r += a) S2(0,H,R,H, r = a * b) S2(0,H,C,H, r = a * b) S2(0,C,H,H, r = localInnerProduct(a, b)) S1(0,R,H, r = localNorm2(a)) S1(0,H,H, r = timesI(a)) S1(0,H,H, r = -a) S2(0,H,H,H, r = a - timesI(b)) S2(0,H,M,H, r += a * b) S2(0,H,M,H, r -= adj(a) * b)
  S2(0,X,M,X, r = a * b) S2(0,X,M,X, r = adj(a) * b) S2(0,X,X,X, r = a + b) S2(0,X,X,X, r = a - b) S1(0,X,X, r -= a) S2(0,X,R,X, r = a * b) S2(0,C,X,X, r = localInnerProduct(a, b)) S1(0,R,X, r = localNorm2(a)) S2(0,X,C,X, r = a * b)
  S2(0,W,S,W, r = a * b) S2(0,W,S,W, r = adj(a) * b) S2(0,W,W,W, r = a + b) S2(0,W,W,W, r = a - b) S1(0,W,W, r = -a) S2(0,W,C,W, r = a * b) S2(0,W,W,R, r = a * b) S2(0,C,W,W, r = localInnerProduct(a, b)) S1(0,R,W, r = localNorm2(a)) S1(0,W,W, r += a) S1(0,W,W, r = timesI(a)) S1(0,W,W, r = conj(a)) S2(0,S,W,W, r = outerProduct(a, b))
  S2(0,F,F,F, r = a - timesI(b)) S2(0,sF,sM,sF, r = a * b) S2(0,sF,sM,sF, r = adj(a) * b) S2(0,sF,sF,sF, r = a + b) S2(0,sC,sF,sF, r = localInnerProduct(a, b)) S1(0,sR,sF, r = localNorm2(a)) S2(0,sP,sF,sF, r = outerProduct(a, b)) S2(0,sF,sP,sF, r = a * b) S2(0,sF,sS,sF, r = a * b) S2(0,sF,sC,sF, r = a * b) S1(0,sF,sF, r -= a) S1(0,sF,sF, r = -a)
}
}
