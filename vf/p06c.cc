#include "word.h"
namespace vf {
typedef LatticeBoolean B_;
using std::isnan; using std::isinf; using std::isfinite; using std::isnormal;
#define FN(f, fl) W1(fl,R,R, r = f(a)) W1(fl,RD,RD, r = f(a)) W1(fl,sR,sR, r = f(a)) W1(fl,sRD,sRD, r = f(a)) W1(fl,R,R, r += f(-a * a + a * a + a))
VF_TABLE(functions) {
  FN(sin, 0) FN(cos, 0) FN(tan, w_unit) FN(asin, w_unit) FN(acos, w_unit) FN(atan, 0) FN(sinh, w_unit) FN(cosh, w_unit) FN(tanh, 0) FN(exp, w_unit) FN(log, w_pos) FN(log10, w_pos) FN(sqrt, w_pos) FN(fabs, 0) FN(floor, 0) FN(ceil, 0)
}
VF_TABLE(functions2) {
  W2(w_pos,R,R,R, r = pow(a, b)) W2(w_pos,RD,RD,RD, r = pow(a, b)) W2(w_pos,R,R,sR, r = pow(a, b)) W2(w_pos,R,sR,R, r = pow(a, b)) W2(w_pos,sR,sR,sR, r = pow(a, b)) W2(w_smallint|w_nz,R,R,I, r = pow(a, b)) W2(w_smallint|w_nz,RD,RD,I, r = pow(a, b)) W1(w_pos,R,R, r = pow(a, 3))
  W2(w_nz,R,R,R, r = atan2(a, b)) W2(w_nz,RD,RD,RD, r = atan2(a, b)) W2(w_nz,R,sR,R, r = atan2(a, b)) W2(w_nz,R,R,sR, r = atan2(a, b)) W2(w_nz,sR,sR,sR, r = atan2(a, b)) W2(w_nz,sRD,sRD,sRD, r = atan2(a, b))
}
}
