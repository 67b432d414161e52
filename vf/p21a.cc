#include "prog.h"
namespace vf {
std::vector<Step>& steps() { static std::vector<Step> s; return s; }
VF_TABLE(linear) {
  G2(R, R, R, r = a + b) G2(R, R, R, r = a * b) G2(R, R, R, r += a * b) G2(R, R, R, r = a - b) G1(R, R, r += a) G1(R, R, r -= a) G1(R, C, r = real(a)) G1(R, C, r = imag(a)) G1(R, F, r = localNorm2(a)) G1(R, M, r = realTrace(a)) G1(R, M, r = localNorm2(a)) G2(R, F, F, r = localInnerProductReal(a, b))
  G2(C, R, R, r = cmplx(a, b)) G2(C, C, C, r = a * b) G2(C, C, C, r -= conj(a) * b) G1(C, M, r = trace(a)) G2(C, F, F, r = localInnerProduct(a, b)) G1(C, P, r = trace(a)) G2(C, M, M, r = trace(adj(a) * b)) G2(C, C, R, r += timesI(a) * b) G1(C, R, r = a) G2(C, P, P, r = trace(a * b)) G2(C, V, V, r = localInnerProduct(a, b))
  G2(M, M, M, r = a * b) G2(M, M, M, r = adj(a) * b) G2(M, M, M, r = a * adj(b)) G2(M, M, M, r = adj(a) * adj(b)) G2(M, M, M, r += a * b) G2(M, M, M, r -= a * adj(b)) G2(M, M, M, r += adj(a) * b) G2(M, M, M, r = a + b) G1(M, M, r -= a) G1(M, M, r += a) G2(M, C, M, r = a * b) G2(M, R, M, r = a * b) G2(M, V, V, r = outerProduct(a, b)) G1(M, M, r = transpose(a)) G1(M, R, r = a) G1(M, P, r = traceSpin(a)) G3(M, M, M, M, r = a * b * e) G3(M, M, M, M, r = a * (b + e)) G2(M, M, M, r = a - adj(b))
  G2(V, M, V, r = a * b) G2(V, M, V, r = adj(a) * b) G2(V, M, V, r += a * b) G2(V, M, V, r -= adj(a) * b) G2(V, V, V, r = a + b) G2(V, R, V, r = a * b + x) G2(V, C, V, r += a * b)
  G2(H, M, H, r = a * b) G2(H, M, H, r = adj(a) * b) G2(H, H, H, r = a - b)
}
}
