#include "word.h"
namespace vf {
#define BIN(D, A, B) W2(0,D,A,B, r = a + b) W2(0,D,A,B, r = a - b) W2(0,D,A,B, r = a * b) W2(w_nz,D,A,B, r = a / b)
#define OPA(D, A) W1(0,D,A, r += a) W1(0,D,A, r -= a) W1(0,D,A, r *= a) W1(w_nz,D,A, r /= a)
typedef LatticeBoolean B_;
VF_TABLE(reals) {
  BIN(R,R,R) BIN(R,sR,R) BIN(R,R,sR) BIN(sR,sR,sR) BIN(RD,RD,RD) BIN(RD,sRD,RD) BIN(sRD,sRD,sRD) BIN(RF,RF,RF) BIN(RD,R,RD) BIN(RD,RD,R) BIN(R,RD,RD) BIN(R,I,R) BIN(R,R,I) BIN(RD,I,RD) BIN(R,sI,R) BIN(sRD,sR,sRD) BIN(sR,sI,sR) BIN(RD,RF,RF)
  OPA(R,R) OPA(R,sR) OPA(RD,RD) OPA(RD,R) OPA(R,RD) OPA(RD,sRD) OPA(R,I) OPA(sR,sR) OPA(sRD,sRD) OPA(sRD,sR)
  W1(0,R,R, r = -a) W1(0,RD,RD, r = +a) W1(0,sR,sR, r = -a) W0(0,R, r = 1.5) W0(0,R, r += 1.5) W0(0,R, r -= 1.5) W0(0,R, r *= 1.5) W0(0,R, r /= 1.5) W0(0,RD, r /= 3.0) W0(0,sR, r += 1.5) W1(0,R,R, r = a + 2.0) W1(0,R,R, r = 2.0 - a) W1(0,R,R, r = a * 2.0) W1(w_nz,R,R, r = 1.0 / a) W1(0,RD,RD, r = a / 3.0) W1(0,R,R, r = 2 * a) W1(0,R,R, r = a - 1)
  W1(0,R,RD, r = a) W1(0,RD,R, r = a) W1(0,R,I, r = a) W1(0,RD,I, r = a) W1(0,R,sR, r = a) W1(0,RD,sRD, r = a) W1(0,R,sI, r = a) W1(0,sR,sRD, r = a) W1(0,sRD,sR, r = a) W1(0,sR,sI, r = a) W1(0,RF,RD, r = a) W1(0,R,B_, r = a) W1(0,I,B_, r = a)
  W3(0,R,B_,R,R, r = where(a, b, e)) W3(0,I,B_,I,I, r = where(a, b, e)) W3(0,RD,B_,RD,RD, r = where(a, b, e)) W3(0,R,B_,sR,R, r = where(a, b, e)) W3(0,R,B_,R,sR, r = where(a, b, e)) W3(0,sR,sB,sR,sR, r = where(a, b, e)) W3(0,sI,sB,sI,sI, r = where(a, b, e)) W2(0,R,R,R, r = where(a < b, a, b)) W2(0,I,I,I, r = where(a >= b, a * b, a - b)) W2(0,R,R,R, r += where(a > b, a, -b)) W3(0,R,R,R,R, r = where(a < b && b < e, a, e)) W3(0,B_,B_,B_,B_, r = where(a, b, e))
}
}
