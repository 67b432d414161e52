// P09: BLAS expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(blas_F) {
 S2(0,FF,FF,sRF, r = b * a)
 S2(0,FF,FF,sRF, r = a * b)
 S2(0,FF,FF,sRF, r *= b)
 S2(NZ,FF,FF,sRF, r /= b)
 S2(0,FF,FF,sRF, r += b * a)
 S2(0,FF,FF,sRF, r += a * b)
 S2(0,FF,FF,sRF, r -= b * a)
 S2(0,FF,FF,sRF, r -= a * b)
 S2(0,FF,FF,sRF, r = b * x)
 S2(0,FF,FF,sRF, r = x * b)
 S2(0,FF,FF,sRF, r = b * x + a)
 S2(0,FF,FF,sRF, r = x * b + a)
 S2(0,FF,FF,sRF, r = a + b * x)
 S2(0,FF,FF,sRF, r = a + x * b)
 S2(0,FF,FF,sRF, r = b * x - a)
 S2(0,FF,FF,sRF, r = x * b - a)
 S2(0,FF,FF,sRF, r = a - b * x)
 S2(0,FF,FF,sRF, r = a - x * b)
 S2(0,FF,FF,sRF, r = b * a + x)
 S2(0,FF,FF,sRF, r = a * b + x)
 S2(0,FF,FF,sRF, r = x + b * a)
 S2(0,FF,FF,sRF, r = x + a * b)
 S2(0,FF,FF,sRF, r = b * a - x)
 S2(0,FF,FF,sRF, r = a * b - x)
 S2(0,FF,FF,sRF, r = x - b * a)
 S2(0,FF,FF,sRF, r = x - a * b)
 S2(0,FF,FF,sRF, r += b * x)
 S2(0,FF,FF,sRF, r -= x * b)
 S1(0,FF,FF, r += a)
 S1(0,FF,FF, r -= a)
 S1(0,FF,FF, r = x + a)
 S1(0,FF,FF, r = a - x)
 S1(0,FF,FF, r += x)
 S2(0,FF,FF,FF, r = a + b)
 S2(0,FF,FF,FF, r = a - b)
 S3(0,FF,FF,sRF,FF, r = b * a + e)
 S3(0,FF,FF,sRF,FF, r = a * b + e)
 S3(0,FF,FF,sRF,FF, r = e + b * a)
 S3(0,FF,FF,sRF,FF, r = e + a * b)
 S3(0,FF,FF,sRF,FF, r = b * a - e)
 S3(0,FF,FF,sRF,FF, r = a * b - e)
 S3(0,FF,FF,sRF,FF, r = e - b * a)
 S3(0,FF,FF,sRF,FF, r = e - a * b)
}
VF_TABLE(blas_F_2) {
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + g * e)
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + e * g)
 S4(0,FF,FF,sRF,FF,sRF, r = a * b + g * e)
 S4(0,FF,FF,sRF,FF,sRF, r = a * b + e * g)
 S3(0,FF,FF,sRF,sRF, r = b * x + e * a)
 S3(0,FF,FF,sRF,sRF, r = b * a + e * x)
 S3(0,FF,FF,sRF,sRF, r = x * b + a * e)
 S3(0,FF,FF,sRF,sRF, r = a * b + x * e)
 S3(0,FF,FF,sRF,sRF, r = x * b + e * a)
 S3(0,FF,FF,sRF,sRF, r = b * a + x * e)
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - g * e)
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - e * g)
 S4(0,FF,FF,sRF,FF,sRF, r = a * b - g * e)
 S4(0,FF,FF,sRF,FF,sRF, r = a * b - e * g)
 S3(0,FF,FF,sRF,sRF, r = b * x - e * a)
 S3(0,FF,FF,sRF,sRF, r = b * a - e * x)
 S3(0,FF,FF,sRF,sRF, r = x * b - a * e)
 S3(0,FF,FF,sRF,sRF, r = a * b - x * e)
 S3(0,FF,FF,sRF,sRF, r = x * b - e * a)
 S3(0,FF,FF,sRF,sRF, r = b * a - x * e)
}
}
