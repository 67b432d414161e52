// P10: SU(3) matrix expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(mm_F) {
 S2(0,MF,MF,MF, r = a * b)
 S2(0,MF,MF,MF, r = adj(a) * b)
 S2(0,MF,MF,MF, r = a * adj(b))
 S2(0,MF,MF,MF, r = adj(a) * adj(b))
 S2(0,MF,MF,MF, r += a * b)
 S2(0,MF,MF,MF, r += adj(a) * b)
 S2(0,MF,MF,MF, r += a * adj(b))
 S2(0,MF,MF,MF, r += adj(a) * adj(b))
 S2(0,MF,MF,MF, r -= a * b)
 S2(0,MF,MF,MF, r -= adj(a) * b)
 S2(0,MF,MF,MF, r -= a * adj(b))
 S2(0,MF,MF,MF, r -= adj(a) * adj(b))
 S1(0,MF,MF, r = a * a)
 S1(0,MF,MF, r += a * a)
 S1(0,MF,MF, r = adj(a) * a)
 S1(0,MF,MF, r += adj(a) * a)
 S1(0,MF,MF, r = a * adj(a))
 S1(0,MF,MF, r += a * adj(a))
 S1(0,MF,MF, r = a)
 S1(0,MF,MF, r += a)
 S1(0,MF,MF, r -= a)
 S1(0,MF,MF, r = -a)
 S1(0,MF,MF, r = adj(a))
 S1(0,MF,MF, r += adj(a))
 S1(0,MF,MF, r = a + x)
 S1(0,MF,MF, r += x)
 S2(0,MF,MF,MF, r = a + b)
 S2(0,MF,MF,MF, r = a - b)
 S3(0,MF,sRF,MF,MF, r = a * (b * e))
 S3(0,MF,sRF,MF,MF, r = a * (adj(b) * e))
 S3(0,MF,sRF,MF,MF, r = a * (b * adj(e)))
 S3(0,MF,sRF,MF,MF, r = a * (adj(b) * adj(e)))
 S2(0,MF,sRF,MF, r = a * b)
 S2(0,MF,sRF,MF, r = b * a)
 S2(0,MF,sRF,MF, r += a * b)
 S2(0,MF,sRF,MF, r -= a * b)
 S2(0,MF,sRF,MF, r = a * b + x)
 S2(0,MF,sRF,MF, r += b * a)
 S1(NZ,MF,sRF, r *= a)
 S1(NZ,MF,sRF, r /= a)
 S2(0,MF,CF,MF, r = a * b)
 S2(0,MF,CF,MF, r += a * b)
 S2(0,MF,ColorMatrixF,MF, r = adj(a) * b)
 S2(0,MF,ColorMatrixF,MF, r = a * b)
 S2(0,MF,MF,ColorMatrixF, r = a * b)
 S2(0,ColorMatrixF,ColorMatrixF,ColorMatrixF, r = a * b)
 S2(0,MF,ColorMatrixF,MF, r = adj(a) * b)
 S2(0,MF,MF,ColorMatrixF, r = adj(a) * b)
 S2(0,ColorMatrixF,ColorMatrixF,ColorMatrixF, r = adj(a) * b)
 S2(0,MF,ColorMatrixF,MF, r = a * adj(b))
 S2(0,MF,MF,ColorMatrixF, r = a * adj(b))
 S2(0,ColorMatrixF,ColorMatrixF,ColorMatrixF, r = a * adj(b))
 S2(0,MF,ColorMatrixF,MF, r = adj(a) * adj(b))
 S2(0,MF,MF,ColorMatrixF, r = adj(a) * adj(b))
 S2(0,ColorMatrixF,ColorMatrixF,ColorMatrixF, r = adj(a) * adj(b))
 S3(0,MF,MF,MF,MF, r = a * b * e)
 S3(0,MF,MF,MF,MF, r = a * adj(b) * e)
 S3(0,MF,MF,MF,MF, r = a * b * adj(e))
 S3(0,MF,MF,MF,MF, r = adj(a) * b * adj(e))
 S3(0,MF,MF,MF,MF, r = a * (b + e))
 S3(0,MF,MF,MF,MF, r = adj(a * b) * e)
 S3(0,MF,MF,MF,MF, r = a * b + e)
 S3(0,MF,MF,MF,MF, r = a * b - adj(e))
 S3(0,MF,MF,MF,MF, r += a * b * e)
 S3(0,MF,MF,MF,MF, r = (a + b) * adj(e))
 S2(0,MF,MF,MF, r = a * shift(b, FORWARD, 0))
 S2(0,MF,MF,MF, r = shift(a, BACKWARD, 1) * adj(b))
 S2(0,MF,MF,MF, r += adj(shift(a, FORWARD, 2)) * b)
 S2(0,MF,MF,MF, r = shift(adj(a) * b, BACKWARD, 0))
}
}
