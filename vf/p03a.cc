#include "sub.h"
namespace vf {
VF_TABLE(words) {
  T0(I, r = 5) T1(I, sI, r = a) T1(I, I, r = a) T2(I, I, I, r = a * b - a) T1(I, I, r += a) T1(I, I, r -= a) T1(I, I, r *= a) T1(I, sI, r += a) T1(I, sI, r -= a) T1(I, sI, r *= a) T0(I, r += 3) T0(I, r -= 2) T0(I, r *= 7) T0(I, r = zero)
  T1F(0, PW2, I, I, r /= a) T1F(0, PW2, I, I, r %= a) T1F(0, PW2, I, sI, r /= a) T1F(0, PW2, I, sI, r %= a) T0(I, r /= 2) T0(I, r %= 3)
  T1(I, I, r &= a) T1(I, I, r |= a) T1(I, I, r ^= a) T1(I, sI, r &= a) T1(I, sI, r |= a) T1(I, sI, r ^= a) T0(I, r &= 6) T0(I, r |= 5) T0(I, r ^= 3)
  T1F(SHIFTV, SHIFTV, I, I, r <<= a) T1F(SHIFTV, SHIFTV, I, I, r >>= a) T1F(SHIFTV, SHIFTV, I, sI, r <<= a) T1F(SHIFTV, SHIFTV, I, sI, r >>= a) T0(I, r <<= 2) T0(I, r >>= 1)
  T2F(0, PW2, I, I, I, r /= a * b) T2F(0, PW2, I, I, I, r %= a + b) T2F(0, PW2, I, sI, I, r /= a + b) T2F(0, PW2, I, sI, I, r %= a * b) T2F(SHIFTV, SHIFTV, I, I, I, r <<= a + b) T2F(SHIFTV, SHIFTV, I, I, I, r >>= a + b) T2F(SHIFTV, SHIFTV, I, sI, I, r <<= (a | b)) T2F(SHIFTV, SHIFTV, I, I, sI, r >>= (a & b)) T2F(0, PW2, R, R, R, r /= a * b) T2F(0, PW2, R, R, R, r /= a * shift(b, FORWARD, 0)) T2F(0, PW2, C, C, R, r /= a * b) T2F(0, PW2, C, R, R, r /= a * b) T2F(0, PW2, F, R, R, r /= a * b) T2F(0, PW2, M, R, R, r /= a * b) T2F(0, PW2, V, R, sR, r /= a * b) T2F(0, 0, M, R, C, r *= a * b) T2F(0, 0, F, C, R, r *= a * b) T2F(0, 0, R, R, R, r *= a + b) T2F(0, 0, B, B, B, r &= (a || b)) T2F(0, 0, B, B, B, r |= (a && b)) T2F(0, 0, B, B, B, r ^= (a || !b)) T2(B, I, I, r &= a < b)
  T2(I, I, I, r += a * b) T2(I, I, I, r -= a + b) T2(I, I, I, r *= a - b) T2(I, I, I, r &= (a | b)) T2(I, I, I, r ^= (a & b)) T2(I, I, I, r |= a + b)
  T0(B, r = true) T1(B, B, r = a) T1(B, sB, r = a) T2(B, B, B, r = a && b) T2(B, B, B, r = a || !b) T2(B, I, I, r = a < b) T1(B, B, r &= a) T1(B, B, r |= a) T1(B, B, r ^= a) T2(B, I, sI, r = a == b)
  T0(R, r = 2.5) T1(R, sR, r = a) T1(R, R, r = a) T1(R, I, r = a) T2(R, R, R, r = a * b) T2(R, R, R, r = a - b) T1(R, R, r += a) T1(R, R, r -= a) T1(R, R, r *= a) T1F(0, PW2, R, R, r /= a) T1(R, sR, r += a) T1(R, sR, r -= a) T1(R, sR, r *= a) T1F(0, PW2, R, sR, r /= a) T0(R, r += 1.5) T0(R, r *= 2.0) T0(R, r -= 0.5) T0(R, r /= 4.0) T0(R, r = zero) T2(R, B, R, r = where(a, b, b * b)) T1(RD, RD, r += a) T1(RD, R, r = a) T1(RD, R, r += a) T1(RF, RD, r = a)
  T0(C, r = zero) T1(C, C, r = a) T1(C, sC, r = a) T1(C, R, r = a) T2(C, C, C, r = a * b) T1(C, C, r += a) T1(C, C, r -= a) T1(C, C, r *= a) T1F(0, PW2, C, C, r /= a) T1(C, sC, r += a) T1(C, sC, r -= a) T1(C, sC, r *= a) T1F(0, PW2, C, R, r /= a) T1(C, R, r *= a) T2(C, R, R, r = cmplx(a, b)) T2(C, R, sR, r += cmplx(a, b)) T1(CD, CD, r -= a) T1(CD, C, r = a) T0(C, r = 2.0)
  T1(R, R, r = shift(a, FORWARD, 0)) T1(C, C, r += shift(a, BACKWARD, Nd - 1)) T1(I, I, r -= shift(a, FORWARD, 1)) T2(R, R, R, r = shift(a * b, BACKWARD, 1) - a)
}
VF_TABLE(matrices) {
  T0(M, r = zero) T0(M, r = 2.0) T1(M, sM, r = a) T1(M, M, r = a) T1(M, M, r += a) T1(M, M, r -= a) T2(M, M, M, r = a * b) T2(M, M, M, r += a * b) T2(M, M, M, r -= a * b) T2(M, M, M, r = adj(a) * b) T2(M, M, M, r += a * adj(b)) T2(M, M, M, r -= adj(a) * adj(b)) T2(M, M, M, r = a + b) T2(M, M, M, r = a - b) T1(M, C, r = a) T1(M, R, r *= a) T1(M, sR, r *= a) T0(M, r *= 2.0) T2(M, sR, M, r = a * b) T1(M, M, r = adj(a)) T2(M, M, M, r = a * shift(b, FORWARD, 0)) T2(M, M, M, r = shift(adj(a) * b, BACKWARD, 1))
  T0(MD, r = zero) T1(MD, MD, r += a) T2(MD, MD, MD, r = a * b) T2(MD, MD, MD, r += a * adj(b)) T2(MD, MD, MD, r -= adj(a) * b) T1(MD, M, r = a) T1(MF, MD, r = a)
  T0(V, r = zero) T1(V, V, r = a) T1(V, sV, r = a) T1(V, V, r += a) T2(V, M, V, r = a * b) T2(V, M, V, r += adj(a) * b) T2(V, sR, V, r = a * b) T2(V, V, V, r = a - b) T1(V, C, r *= a) T2(V, M, V, r -= a * shift(b, FORWARD, 0))
}
}
