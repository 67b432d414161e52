// P10: SU(3) matrix expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(mm_D) {
 S2(0,MD,MD,MD, r = a * b)
 S2(0,MD,MD,MD, r = adj(a) * b)
 S2(0,MD,MD,MD, r = a * adj(b))
 S2(0,MD,MD,MD, r = adj(a) * adj(b))
 S2(0,MD,MD,MD, r += a * b)
 S2(0,MD,MD,MD, r += adj(a) * b)
 S2(0,MD,MD,MD, r += a * adj(b))
 S2(0,MD,MD,MD, r += adj(a) * adj(b))
 S2(0,MD,MD,MD, r -= a * b)
 S2(0,MD,MD,MD, r -= adj(a) * b)
 S2(0,MD,MD,MD, r -= a * adj(b))
 S2(0,MD,MD,MD, r -= adj(a) * adj(b))
 S1(0,MD,MD, r = a * a)
 S1(0,MD,MD, r += a * a)
 S1(0,MD,MD, r = adj(a) * a)
 S1(0,MD,MD, r += adj(a) * a)
 S1(0,MD,MD, r = a * adj(a))
 S1(0,MD,MD, r += a * adj(a))
 S1(0,MD,MD, r = a)
 S1(0,MD,MD, r += a)
 S1(0,MD,MD, r -= a)
 S1(0,MD,MD, r = -a)
 S1(0,MD,MD, r = adj(a))
 S1(0,MD,MD, r += adj(a))
 S1(0,MD,MD, r = a + x)
 S1(0,MD,MD, r += x)
 S2(0,MD,MD,MD, r = a + b)
 S2(0,MD,MD,MD, r = a - b)
 S3(0,MD,sRD,MD,MD, r = a * (b * e))
 S3(0,MD,sRD,MD,MD, r = a * (adj(b) * e))
 S3(0,MD,sRD,MD,MD, r = a * (b * adj(e)))
 S3(0,MD,sRD,MD,MD, r = a * (adj(b) * adj(e)))
 S2(0,MD,sRD,MD, r = a * b)
 S2(0,MD,sRD,MD, r = b * a)
 S2(0,MD,sRD,MD, r += a * b)
 S2(0,MD,sRD,MD, r -= a * b)
 S2(0,MD,sRD,MD, r = a * b + x)
 S2(0,MD,sRD,MD, r += b * a)
 S1(NZ,MD,sRD, r *= a)
 S1(NZ,MD,sRD, r /= a)
 S2(0,MD,CD,MD, r = a * b)
 S2(0,MD,CD,MD, r += a * b)
 S2(0,MD,sMD,MD, r = adj(a) * b)
 S2(0,MD,sMD,MD, r = a * b)
 S2(0,MD,MD,sMD, r = a * b)
 S2(0,sMD,sMD,sMD, r = a * b)
 S2(0,MD,sMD,MD, r = adj(a) * b)
 S2(0,MD,MD,sMD, r = adj(a) * b)
 S2(0,sMD,sMD,sMD, r = adj(a) * b)
 S2(0,MD,sMD,MD, r = a * adj(b))
 S2(0,MD,MD,sMD, r = a * adj(b))
 S2(0,sMD,sMD,sMD, r = a * adj(b))
 S2(0,MD,sMD,MD, r = adj(a) * adj(b))
 S2(0,MD,MD,sMD, r = adj(a) * adj(b))
 S2(0,sMD,sMD,sMD, r = adj(a) * adj(b))
 S3(0,MD,MD,MD,MD, r = a * b * e)
 S3(0,MD,MD,MD,MD, r = a * adj(b) * e)
 S3(0,MD,MD,MD,MD, r = a * b * adj(e))
 S3(0,MD,MD,MD,MD, r = adj(a) * b * adj(e))
 S3(0,MD,MD,MD,MD, r = a * (b + e))
 S3(0,MD,MD,MD,MD, r = adj(a * b) * e)
 S3(0,MD,MD,MD,MD, r = a * b + e)
 S3(0,MD,MD,MD,MD, r = a * b - adj(e))
 S3(0,MD,MD,MD,MD, r += a * b * e)
 S3(0,MD,MD,MD,MD, r = (a + b) * adj(e))
 S2(0,MD,MD,MD, r = a * shift(b, FORWARD, 0))
 S2(0,MD,MD,MD, r = shift(a, BACKWARD, 1) * adj(b))
 S2(0,MD,MD,MD, r += adj(shift(a, FORWARD, 2)) * b)
 S2(0,MD,MD,MD, r = shift(adj(a) * b, BACKWARD, 0))
}
}
