// P09: BLAS expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(blas_D) {
 S2(0,FD,FD,sRD, r = b * a)
 S2(0,FD,FD,sRD, r = a * b)
 S2(0,FD,FD,sRD, r *= b)
 S2(NZ,FD,FD,sRD, r /= b)
 S2(0,FD,FD,sRD, r += b * a)
 S2(0,FD,FD,sRD, r += a * b)
 S2(0,FD,FD,sRD, r -= b * a)
 S2(0,FD,FD,sRD, r -= a * b)
 S2(0,FD,FD,sRD, r = b * x)
 S2(0,FD,FD,sRD, r = x * b)
 S2(0,FD,FD,sRD, r = b * x + a)
 S2(0,FD,FD,sRD, r = x * b + a)
 S2(0,FD,FD,sRD, r = a + b * x)
 S2(0,FD,FD,sRD, r = a + x * b)
 S2(0,FD,FD,sRD, r = b * x - a)
 S2(0,FD,FD,sRD, r = x * b - a)
 S2(0,FD,FD,sRD, r = a - b * x)
 S2(0,FD,FD,sRD, r = a - x * b)
 S2(0,FD,FD,sRD, r = b * a + x)
 S2(0,FD,FD,sRD, r = a * b + x)
 S2(0,FD,FD,sRD, r = x + b * a)
 S2(0,FD,FD,sRD, r = x + a * b)
 S2(0,FD,FD,sRD, r = b * a - x)
 S2(0,FD,FD,sRD, r = a * b - x)
 S2(0,FD,FD,sRD, r = x - b * a)
 S2(0,FD,FD,sRD, r = x - a * b)
 S2(0,FD,FD,sRD, r += b * x)
 S2(0,FD,FD,sRD, r -= x * b)
 S1(0,FD,FD, r += a)
 S1(0,FD,FD, r -= a)
 S1(0,FD,FD, r = x + a)
 S1(0,FD,FD, r = a - x)
 S1(0,FD,FD, r += x)
 S2(0,FD,FD,FD, r = a + b)
 S2(0,FD,FD,FD, r = a - b)
 S3(0,FD,FD,sRD,FD, r = b * a + e)
 S3(0,FD,FD,sRD,FD, r = a * b + e)
 S3(0,FD,FD,sRD,FD, r = e + b * a)
 S3(0,FD,FD,sRD,FD, r = e + a * b)
 S3(0,FD,FD,sRD,FD, r = b * a - e)
 S3(0,FD,FD,sRD,FD, r = a * b - e)
 S3(0,FD,FD,sRD,FD, r = e - b * a)
 S3(0,FD,FD,sRD,FD, r = e - a * b)
}
VF_TABLE(blas_D_2) {
 S4(0,FD,FD,sRD,FD,sRD, r = b * a + g * e)
 S4(0,FD,FD,sRD,FD,sRD, r = b * a + e * g)
 S4(0,FD,FD,sRD,FD,sRD, r = a * b + g * e)
 S4(0,FD,FD,sRD,FD,sRD, r = a * b + e * g)
 S3(0,FD,FD,sRD,sRD, r = b * x + e * a)
 S3(0,FD,FD,sRD,sRD, r = b * a + e * x)
 S3(0,FD,FD,sRD,sRD, r = x * b + a * e)
 S3(0,FD,FD,sRD,sRD, r = a * b + x * e)
 S3(0,FD,FD,sRD,sRD, r = x * b + e * a)
 S3(0,FD,FD,sRD,sRD, r = b * a + x * e)
 S4(0,FD,FD,sRD,FD,sRD, r = b * a - g * e)
 S4(0,FD,FD,sRD,FD,sRD, r = b * a - e * g)
 S4(0,FD,FD,sRD,FD,sRD, r = a * b - g * e)
 S4(0,FD,FD,sRD,FD,sRD, r = a * b - e * g)
 S3(0,FD,FD,sRD,sRD, r = b * x - e * a)
 S3(0,FD,FD,sRD,sRD, r = b * a - e * x)
 S3(0,FD,FD,sRD,sRD, r = x * b - a * e)
 S3(0,FD,FD,sRD,sRD, r = a * b - x * e)
 S3(0,FD,FD,sRD,sRD, r = x * b - e * a)
 S3(0,FD,FD,sRD,sRD, r = b * a - x * e)
}
}
