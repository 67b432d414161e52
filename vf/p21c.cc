#include "prog.h"
namespace vf {
VF_TABLE(spin) {
  G2(F, M, F, r = a * b) G2(F, M, F, r = adj(a) * b) G2(F, M, F, r += a * b) G2(F, M, F, r -= a * b) G2(F, S, F, r = a * b) G2(F, F, F, r = a + b) G2(F, F, F, r = a - b) G1(F, F, r += a) G1(F, F, r -= a) G2(F, R, F, r = a * b + x) G2(F, R, F, r = b - a * x) G2(F, C, F, r += a * b) G1(F, F, r = -a) G1(F, F, r = timesI(a))
  G1(F, F, r = (GammaConst<4, 5>() * a)) G1(F, F, r += (GammaConst<4, 15>() * a)) G1(F, F, r = a + (GammaConst<4, 8>() * a))
  G1(H, F, r = (proj_<0, 1>()(a))) G1(H, F, r = (proj_<1, -1>()(a))) G1(H, F, r = (proj_<2, 1>()(a))) G1(H, F, r = (proj_<3, -1>()(a))) G1(F, H, r = (recon_<0, -1>()(a))) G1(F, H, r += (recon_<1, 1>()(a))) G1(F, H, r += (recon_<2, -1>()(a))) G1(F, H, r = (recon_<3, 1>()(a)))
  G2(H, M, F, r = a * (proj_<2, -1>()(b))) G2(H, M, F, r = adj(a) * (proj_<3, 1>()(b))) G2(F, M, H, r += (recon_<0, 1>()(a * b))) G2(F, M, H, r = (recon_<3, -1>()(a * b)))
  G2(P, P, P, r = a + b) G2(P, M, P, r = a * b) G2(P, P, M, r = a * b) G1(P, P, r = adj(a)) G1(P, P, r -= a) G2(P, P, P, r = a * b) G2(P, F, F, r = outerProduct(a, b)) G2(P, S, P, r = a * b) G1(P, P, r = transpose(a)) G2(P, S, M, r = a * b) G2(P, C, P, r += a * b)
  G2(S, S, S, r = a * b) G2(S, S, S, r += a * adj(b)) G1(S, P, r = traceColor(a)) G2(S, W, W, r = outerProduct(a, b)) G1(S, S, r = transpose(a)) G2(W, S, W, r = a * b) G2(W, W, W, r = a - b) G2(W, C, W, r += a * b)
  G2(I, I, I, r = a + b) G2(I, I, I, r = a * b) G2(I, I, I, r -= a) G1(R, I, r = a) G2(I, I, I, r += a - b)
}
}
