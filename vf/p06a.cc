#include "word.h"
namespace vf {
#define BIN(D, A, B) W2(0,D,A,B, r = a + b) W2(0,D,A,B, r = a - b) W2(0,D,A,B, r = a * b) W2(w_nz,D,A,B, r = a / b)
#define OPA(D, A) W1(0,D,A, r += a) W1(0,D,A, r -= a) W1(0,D,A, r *= a) W1(w_nz,D,A, r /= a)
#define CMP(A, B) W2(0,B_,A,B, r = a < b) W2(0,B_,A,B, r = a <= b) W2(0,B_,A,B, r = a > b) W2(0,B_,A,B, r = a >= b) W2(0,B_,A,B, r = a == b) W2(0,B_,A,B, r = a != b)
typedef LatticeBoolean B_;
VF_TABLE(ints) {
  BIN(I,I,I) BIN(I,sI,I) BIN(I,I,sI) BIN(sI,sI,sI) OPA(I,I) OPA(I,sI) OPA(sI,sI)
  W2(w_nz,I,I,I, r = a % b) W2(w_nz,I,sI,I, r = a % b) W2(w_nz,I,I,sI, r = a % b) W2(w_nz,sI,sI,sI, r = a % b) W1(w_nz,I,I, r %= a) W1(w_nz,I,sI, r %= a) W1(w_nz,sI,sI, r %= a)
  W2(w_big,I,I,I, r = a & b) W2(w_big,I,I,I, r = a | b) W2(w_big,I,I,I, r = a ^ b) W2(w_big,I,sI,I, r = a & b) W2(w_big,I,I,sI, r = a | b) W2(w_big,I,sI,I, r = a ^ b) W2(w_big,sI,sI,sI, r = a & b) W2(w_big,sI,sI,sI, r = a | b) W2(w_big,sI,sI,sI, r = a ^ b)
  W1(w_big,I,I, r &= a) W1(w_big,I,I, r |= a) W1(w_big,I,I, r ^= a) W1(w_big,I,sI, r &= a) W1(w_big,I,sI, r |= a) W1(w_big,I,sI, r ^= a) W1(w_big,sI,sI, r &= a) W1(w_big,sI,sI, r |= a) W1(w_big,sI,sI, r ^= a)
  W2(w_shift,I,I,I, r = a << b) W2(w_shift,I,I,I, r = a >> b) W2(w_shift,I,sI,I, r = a << b) W2(w_shift,I,I,sI, r = a >> b) W2(w_shift,sI,sI,sI, r = a << b) W2(w_shift,sI,sI,sI, r = a >> b) W1(w_shift,I,I, r <<= a) W1(w_shift,I,I, r >>= a) W1(w_shift,I,sI, r <<= a) W1(w_shift,I,sI, r >>= a) W1(w_shift,sI,sI, r <<= a) W1(w_shift,sI,sI, r >>= a)
  W1(0,I,I, r = -a) W1(0,I,I, r = +a) W1(0,sI,sI, r = -a) W0(0,I, r = 7) W0(0,I, r += 7) W0(0,I, r -= 7) W0(0,I, r *= 7) W0(0,I, r /= 7) W0(0,I, r %= 7) W0(0,sI, r -= 7) W1(0,I,I, r = a + 3) W1(0,I,I, r = 3 - a) W1(0,I,I, r = a * 5) W1(w_nz,I,I, r = 100 / a) W1(w_nz,I,I, r = 100 % a) W1(w_big,I,I, r = a & 255) W1(w_shift,I,I, r = a << 3) W1(w_big,I,I, r = a >> 3)
  W1(w_nz,I,I, r /= a + a) W1(w_nz,I,I, r %= a + a) W2(w_nz,I,I,sI, r /= -b) W2(w_nz,I,I,sI, r %= -b) W1(w_big,I,I, r <<= (a & 7)) W1(w_big,I,I, r >>= (a & 31)) W2(w_big,I,I,I, r &= (a | b)) W2(w_big,I,I,I, r |= (a ^ b)) W2(w_big,I,I,I, r ^= (a & b)) W2(w_big,sI,sI,sI, r ^= (a & b)) W1(w_nz,sI,sI, r %= -a) W1(w_nz,sI,sI, r /= -a)
  W1(0,I,sI, r = a) W1(0,I,I, r = a) W3(0,I,I,I,I, r = a * b + e) W3(0,I,I,I,I, r = a - (b - e)) W3(0,I,I,I,I, r = (a + b) * (a - e)) W3(w_nz,I,I,I,I, r += a / b * e)
}
VF_TABLE(comparisons) {
  CMP(I,I) CMP(I,sI) CMP(sI,I) CMP(R,R) CMP(R,sR) CMP(sR,R) CMP(RD,RD) CMP(RD,R) CMP(R,I)
  W2(0,sB,sI,sI, r = a < b) W2(0,sB,sR,sR, r = a >= b) W2(0,sB,sRD,sRD, r = a == b) W2(0,sB,sR,sRD, r = a != b) W2(0,sB,sI,sR, r = a > b) W2(0,sB,sI,sI, r = a <= b) W1(0,B_,I, r = a < 3) W1(0,B_,I, r = 3 <= a) W1(0,B_,R, r = a > 0.5) W1(0,B_,R, r = 0.5 == a) W1(0,B_,I, r = a != 2) W1(0,B_,RD, r = a >= 1.0)
  W2(w_special,B_,R,R, r = a < b) W2(w_special,B_,R,R, r = a == b) W2(w_special,B_,RD,RD, r = a != b) W2(w_special,B_,RD,RD, r = a >= b)
  W2(0,B_,B_,B_, r = a && b) W2(0,B_,B_,B_, r = a || b) W1(0,B_,B_, r = !a) W2(0,B_,B_,B_, r = a & b) W2(0,B_,B_,B_, r = a | b) W2(0,B_,B_,B_, r = a ^ b) W2(0,B_,sB,B_, r = a && b) W2(0,B_,B_,sB, r = a || b) W2(0,sB,sB,sB, r = a && b) W2(0,sB,sB,sB, r = a || b) W1(0,sB,sB, r = !a) W1(0,B_,B_, r &= a) W1(0,B_,B_, r |= a) W1(0,B_,B_, r ^= a) W1(0,B_,sB, r &= a) W1(0,B_,sB, r |= a) W1(0,B_,sB, r = a) W0(0,B_, r = true) W0(0,B_, r = false) W2(0,B_,B_,B_, r = a == b) W2(0,B_,B_,B_, r = a != b)
  W3(0,B_,B_,I,I, r = a && (b < e)) W3(0,B_,R,R,R, r = (a < b) || !(b < e)) W3(0,B_,I,I,I, r = !(a == b) && (b >= e))
}
}
