#include "prog.h"
namespace vf {
VF_TABLE(moved) {
#define MV(D) G1(D, D, r = shift(a, FORWARD, 0)) G1(D, D, r = shift(a, BACKWARD, 0)) G1(D, D, r = shift(a, FORWARD, Nd - 1)) G1(D, D, r = shift(a, BACKWARD, 1)) G2(D, D, D, r = b - shift(a, BACKWARD, 2)) G1(D, D, r += shift(shift(a, FORWARD, 1), BACKWARD, 0))
  MV(R) MV(C) MV(M) MV(V) MV(F) MV(P) MV(S) MV(I)
  G3(M, M, M, M, r = a * shift(b, FORWARD, 1) * adj(shift(e, FORWARD, 0))) G3(F, M, M, F, r = a * shift(e, FORWARD, 2) - shift(adj(b) * e, BACKWARD, 2)) G3(F, M, F, F, r += a * shift(b, FORWARD, 0) + e) G2(H, M, F, r = shift(adj(a) * (proj_<1, 1>()(b)), BACKWARD, 1)) G2(F, M, F, r += (recon_<2, 1>()(a * shift((proj_<2, 1>()(b)), FORWARD, 2)))) G3(C, M, M, P, r = trace(a * shift(b, BACKWARD, 0)) + trace(e))
}
}
