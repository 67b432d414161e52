#include "red.h"
namespace vf {
VF_TABLE(norms) {
  D1(QUAD, R, q.norm2(a)) D1(QUAD, RD, q.norm2(a)) D1(QUAD, C, q.norm2(a)) D1(QUAD, CD, q.norm2(a)) D1(QUAD, M, q.norm2(a)) D1(QUAD, MD, q.norm2(a)) D1(QUAD, V, q.norm2(a)) D1(QUAD, VD, q.norm2(a)) D1(QUAD, F, q.norm2(a)) D1(QUAD, FD, q.norm2(a)) D1(QUAD, FF, q.norm2(a)) D1(QUAD, P, q.norm2(a)) D1(QUAD, PD, q.norm2(a)) D1(QUAD, S, q.norm2(a)) D1(QUAD, W, q.norm2(a)) D1(QUAD, H, q.norm2(a)) D1(QUAD, HD, q.norm2(a)) D1(QUAD, X, q.norm2(a)) D1(QUAD, LatticeInteger, q.norm2(a))
  D2(QUAD, F, F, q.norm2(a - b)) D2(QUAD, M, M, q.norm2(a + b)) D2(QUART, M, F, q.norm2(a * b)) D2(QUART, M, M, q.norm2(a * adj(b))) D1(QUAD, F, q.norm2(shift(a, FORWARD, 1))) D2(QUAD, sC, F, q.norm2(a * b)) D2(QUAD, R, R, q.norm2(a - b)) D2(QUAD, FD, FD, q.norm2(a - b)) D1(QUAD, M, q.norm2(trace(a))) D1(QUAD, P, q.norm2(traceColor(a))) D2(QUAD, F, sF, q.norm2(a - b))
}
VF_TABLE(inner) {
  D2(QUAD, R, R, q.ip(a, b)) D2(QUAD, C, C, q.ip(a, b)) D2(QUAD, CD, CD, q.ip(a, b)) D2(QUAD, M, M, q.ip(a, b)) D2(QUAD, MD, MD, q.ip(a, b)) D2(QUAD, V, V, q.ip(a, b)) D2(QUAD, VD, VD, q.ip(a, b)) D2(QUAD, F, F, q.ip(a, b)) D2(QUAD, FD, FD, q.ip(a, b)) D2(QUAD, FF, FF, q.ip(a, b)) D2(QUAD, P, P, q.ip(a, b)) D2(QUAD, PD, PD, q.ip(a, b)) D2(QUAD, S, S, q.ip(a, b)) D2(QUAD, W, W, q.ip(a, b)) D2(QUAD, H, H, q.ip(a, b)) D2(QUAD, X, X, q.ip(a, b))
  D2(QUAD, F, FD, q.ip(a, b)) D2(QUAD, FD, F, q.ip(a, b)) D2(QUAD, F, F, q.ip(a, a - b)) D2(QUAD, F, F, q.ip(a + b, b)) D2(QUART, M, F, q.ip(b, a * b)) D2(QUART, M, F, q.ip(adj(a) * b, a * b)) D1(QUAD, F, q.ip(a, a)) D2(QUAD, F, F, q.ip(a, shift(b, BACKWARD, 2))) D2(QUAD, sF, F, q.ip(a, b)) D2(QUAD, F, sF, q.ip(a, b)) D2(QUART, F, C, q.ip(a, b * a)) D2(QUAD, MD, M, q.ip(a, b)) D2(QUAD, F, F, q.ip(timesI(a), b))
}
VF_TABLE(innerreal) {
  D2(QUAD, R, R, q.ipr(a, b)) D2(QUAD, C, C, q.ipr(a, b)) D2(QUAD, CD, CD, q.ipr(a, b)) D2(QUAD, M, M, q.ipr(a, b)) D2(QUAD, MD, MD, q.ipr(a, b)) D2(QUAD, V, V, q.ipr(a, b)) D2(QUAD, VD, VD, q.ipr(a, b)) D2(QUAD, F, F, q.ipr(a, b)) D2(QUAD, FD, FD, q.ipr(a, b)) D2(QUAD, FF, FF, q.ipr(a, b)) D2(QUAD, P, P, q.ipr(a, b)) D2(QUAD, PD, PD, q.ipr(a, b)) D2(QUAD, S, S, q.ipr(a, b)) D2(QUAD, W, W, q.ipr(a, b)) D2(QUAD, H, H, q.ipr(a, b)) D2(QUAD, X, X, q.ipr(a, b))
  D2(QUAD, F, FD, q.ipr(a, b)) D2(QUAD, F, F, q.ipr(a, a - b)) D2(QUAD, F, F, q.ipr(a + b, b)) D2(QUART, M, F, q.ipr(b, a * b)) D2(QUART, M, F, q.ipr(adj(a) * b, a * b)) D1(QUAD, F, q.ipr(a, a)) D1(QUAD, FD, q.ipr(a, a)) D2(QUAD, sF, F, q.ipr(a, b)) D2(QUAD, F, sF, q.ipr(a, b)) D2(QUAD, F, F, q.ipr(timesI(a), b))
}
}
