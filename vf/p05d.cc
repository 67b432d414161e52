#include "stmt.h"
namespace vf {
VF_TABLE(props_) {
  S2(0,P,P,P, r = a + b) S2(0,P,P,P, r = a - b) S2(0,P,P,P, r = a * b) S1(0,P,P, r = -a) S1(0,P,P, r = a) S1(0,P,P, r += a) S1(0,P,P, r -= a) S2(0,P,P,P, r += a * b) S2(0,P,P,P, r -= adj(a) * b)
  S1(0,P,P, r = adj(a)) S1(0,P,P, r = transpose(a)) S1(0,P,P, r = conj(a)) S1(0,P,P, r = transposeSpin(a)) S1(0,P,P, r = transposeColor(a)) S1(0,P,P, r = timesI(a)) S1(0,P,P, r = timesMinusI(a)) S1(0,C,P, r = trace(a)) S1(0,M,P, r = traceSpin(a)) S1(0,S,P, r = traceColor(a)) S1(0,R,P, r = realTrace(a)) S1(0,R,P, r = imagTrace(a)) S1(0,R,P, r = localNorm2(a)) S2(0,C,P,P, r = localInnerProduct(a, b)) S2(0,R,P,P, r = localInnerProductReal(a, b))
  S2(0,C,P,P, r = trace(a * b)) S2(0,C,P,P, r = trace(adj(a) * b)) S2(0,C,P,P, r = trace(a * adj(b))) S2(0,M,P,P, r = traceSpin(a * b)) S2(0,M,P,P, r = traceSpin(adj(a) * b)) S2(0,M,P,P, r = traceSpin(a * adj(b))) S2(0,S,P,P, r = traceColor(a * b)) S2(0,S,P,P, r = traceColor(adj(a) * b)) S2(0,S,P,P, r = traceColor(a * adj(b))) S2(0,C,P,P, r = trace(adj(a) * adj(b))) S2(0,S,P,P, r = traceColor(adj(a) * adj(b))) S2(0,M,P,P, r = traceSpin(adj(a) * adj(b))) S2(0,R,P,P, r = real(trace(adj(a) * b))) S2(0,R,P,P, r = realTrace(a * b)) S2(0,R,P,P, r = imagTrace(adj(a) * b))
  S2(0,C,P,P, r = traceColor(traceSpin(a * b))) S2(0,C,P,P, r = traceSpin(traceColor(a) * traceColor(b)))
  S2(0,P,M,P, r = a * b) S2(0,P,P,M, r = a * b) S2(0,P,M,P, r = adj(a) * b) S2(0,P,P,M, r = a * adj(b)) S2(0,P,S,P, r = a * b) S2(0,P,P,S, r = a * b) S2(0,P,S,P, r = adj(a) * b) S2(0,P,P,S, r = a * adj(b)) S2(0,P,M,S, r = a * b) S2(0,P,S,M, r = a * b) S2(0,P,M,P, r += a * b) S2(0,P,M,P, r -= adj(a) * b) S2(0,P,P,P, r = adj(a) * b) S2(0,P,P,P, r = a * adj(b)) S2(0,P,P,P, r = adj(a) * adj(b)) S2(0,P,P,P, r = transposeSpin(a) * transposeColor(b))
  S2(0,P,C,P, r = a * b) S2(0,P,P,R, r = a * b) S2(0,P,sC,P, r = a * b) S2(0,P,sR,P, r = a * b) S2(NZ,P,P,C, r = a / b) S2(NZ,P,P,R, r = a / b) S2(NZ,P,P,sR, r = a / b) S1(0,P,C, r *= a) S1(0,P,R, r *= a) S1(NZ,P,R, r /= a) S1(0,P,sR, r *= a) S1(0,P,sP, r = a) S1(0,P,sP, r += a) S2(0,P,sP,P, r = a * b) S2(0,P,P,sP, r = a * b) S2(0,P,sM,P, r = a * b) S2(0,P,P,sS, r = a * b) S2(0,P,sS,P, r = a * b)
  S1(0,P,C, r = a) S1(0,P,M, r = a) S1(0,P,S, r = a) S1(0,P,R, r = a) S0(0,P, r = 1.0) S2(0,P,P,M, r = a + b) S2(0,P,S,P, r = a + b) S2(0,P,P,C, r = a - b) S1(0,P,P, r = 3.0 - a) S1(0,P,M, r += a) S1(0,P,S, r -= a) S1(0,P,C, r += a)
  S3(0,P,M,P,M, r = a * b * adj(e)) S3(0,P,S,P,S, r = a * b * e) S3(0,C,P,M,P, r = trace(adj(a) * b * e)) S3(0,P,P,P,P, r = a * b - e) S3(0,P,P,P,C, r = e * (a + b))
  S2(0,S,S,S, r = a + b) S2(0,S,S,S, r = a - b) S2(0,S,S,S, r = a * b) S2(0,S,S,S, r = adj(a) * b) S2(0,S,S,S, r = a * adj(b)) S2(0,S,S,S, r = adj(a) * adj(b)) S1(0,S,S, r = adj(a)) S1(0,S,S, r = transpose(a)) S1(0,S,S, r = conj(a)) S1(0,S,S, r = transposeSpin(a)) S1(0,C,S, r = trace(a)) S1(0,C,S, r = traceSpin(a)) S1(0,R,S, r = realTrace(a)) S1(0,R,S, r = imagTrace(a)) S1(0,R,S, r = localNorm2(a)) S2(0,C,S,S, r = localInnerProduct(a, b)) S2(0,S,C,S, r = a * b) S2(0,S,S,R, r = a * b) S2(0,S,sS,S, r = a * b) S1(0,S,S, r = -a) S1(0,S,S, r += a) S1(0,S,C, r = a) S1(0,S,R, r = a) S0(0,S, r = 1.0) S2(0,S,S,C, r = a + b) S2(0,C,S,S, r = trace(a * b)) S2(0,C,S,S, r = trace(adj(a) * b)) S2(0,C,S,S, r = traceSpin(a * b)) S1(0,S,S, r = timesI(a))
  S2(0,XP,M,XP, r = a * b) S2(0,XP,XP,XP, r = a * b) S1(0,C,XP, r = trace(a)) S1(0,XP,XP, r = adj(a)) S2(0,XP,XP,XP, r = a - b) S2(0,C,XP,XP, r = trace(adj(a) * b)) S2(0,XP,XP,M, r = a * adj(b))
  S2(0,sP,sP,sP, r = a * b) S2(0,sP,sP,sP, r = adj(a) - b) S1(0,sC,sP, r = trace(a)) S1(0,sM,sP, r = traceSpin(a)) S1(0,sS,sP, r = traceColor(a)) S2(0,sP,sM,sP, r = a * b) S2(0,sP,sS,sP, r = a * b) S2(0,sS,sS,sS, r = a * b) S1(0,sC,sS, r = trace(a)) S1(0,sP,sP, r = transposeSpin(a)) S1(0,sP,sP, r = a) S2(0,sC,sP,sP, r = trace(adj(a) * b))
}
}
