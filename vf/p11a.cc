#include "red.h"
namespace vf {
VF_TABLE(sums) {
  D1(LIN, R, q.sum(a)) D1(LIN, RD, q.sum(a)) D1(LIN, RF, q.sum(a)) D1(LIN, C, q.sum(a)) D1(LIN, CD, q.sum(a)) D1(LIN, CF, q.sum(a)) D1(LIN, LatticeInteger, q.sum(a))
  D1(LIN, M, q.sum(a)) D1(LIN, V, q.sum(a)) D1(LIN, F, q.sum(a)) D1(LIN, P, q.sum(a)) D1(LIN, S, q.sum(a)) D1(LIN, W, q.sum(a)) D1(LIN, H, q.sum(a)) D1(LIN, X, q.sum(a)) D1(LIN, MD, q.sum(a)) D1(LIN, MF, q.sum(a)) D1(LIN, FD, q.sum(a)) D1(LIN, PD, q.sum(a))
  D1(LIN, M, q.sum(adj(a))) D1(LIN, C, q.sum(conj(a))) D1(LIN, C, q.sum(real(a))) D1(LIN, C, q.sum(imag(a))) D1(LIN, P, q.sum(trace(a))) D1(LIN, M, q.sum(realTrace(a))) D1(LIN, P, q.sum(traceColor(a))) D1(LIN, P, q.sum(traceSpin(a))) D2(LIN, R, R, q.sum(a + b)) D2(LIN, C, C, q.sum(a - b)) D2(LIN, F, F, q.sum(a + b)) D2(LIN, P, P, q.sum(a - b))
  D2(QUAD, R, R, q.sum(a * b)) D2(QUAD, C, C, q.sum(a * b)) D2(QUAD, C, C, q.sum(conj(a) * b)) D2(QUAD, M, M, q.sum(a * b)) D2(QUAD, M, M, q.sum(trace(adj(a) * b))) D2(QUAD, M, M, q.sum(realTrace(a * adj(b)))) D2(QUAD, P, P, q.sum(trace(adj(a) * b))) D2(QUAD, M, F, q.sum(a * b)) D1(QUAD, F, q.sum(localNorm2(a))) D2(QUAD, F, F, q.sum(localInnerProduct(a, b))) D2(QUAD, V, V, q.sum(localInnerProduct(a, b))) D2(QUAD, V, V, q.sum(localInnerProductReal(a, b))) D2(QUAD, M, M, q.sum(a * shift(b, FORWARD, 0))) D2(QUAD, M, M, q.sum(trace(a * shift(adj(b), BACKWARD, Nd - 1)))) D1(QUAD, M, q.sum(localNorm2(a))) D2(QUAD, sC, C, q.sum(a * b)) D2(QUAD, sM, M, q.sum(a * b)) D3(QUAD, sR, R, R, q.sum(a * b + e)) D2(QUAD, F, F, q.sum(outerProduct(a, b)))
  D1(LIN, R, q.sum(-a)) D1(QUAD, P, q.sum(localNorm2(a))) D2(QUAD, P, P, q.sum(localInnerProduct(a, b))) D2(QUAD, P, P, q.sum(transposeSpin(a) + b))
}
VF_TABLE(scalar_sums) { D1(LIN, sR, q.sum(a)) D1(LIN, sC, q.sum(a)) D1(LIN, sM, q.sum(a)) D1(LIN, sP, q.sum(a)) D1(QUAD, sM, q.norm2(a)) D1(QUAD, sF, q.norm2(a)) D1(QUAD, sR, q.norm2(a)) D1(QUAD, sC, q.norm2(a)) D2(QUAD, sF, sF, q.ip(a, b)) D2(QUAD, sM, sM, q.ip(a, b)) D2(QUAD, sC, sC, q.ip(a, b)) D2(QUAD, sF, sF, q.ipr(a, b)) D2(QUAD, sM, sM, q.ipr(a, b)) D2(LIN, sR, sR, q.sum(a + b)) D2(QUAD, sM, sM, q.norm2(a - b)) D2(QUAD, sM, sM, q.sum(a * b)) }
}
