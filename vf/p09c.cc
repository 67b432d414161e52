// P09: BLAS expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(cblas_F) {
 S2(0,FF,FF,sCF, r *= b)
 S2(0,FF,FF,sCF, r = b * a)
 S2(0,FF,FF,sCF, r = a * b)
 S2(0,FF,FF,sCF, r += b * a)
 S2(0,FF,FF,sCF, r += a * b)
 S2(0,FF,FF,sCF, r -= b * a)
 S2(0,FF,FF,sCF, r -= a * b)
 S2(0,FF,FF,sCF, r = b * x + a)
 S2(0,FF,FF,sCF, r = x * b + a)
 S2(0,FF,FF,sCF, r = a + b * x)
 S2(0,FF,FF,sCF, r = a - x * b)
 S2(0,FF,FF,sCF, r = b * a + x)
 S2(0,FF,FF,sCF, r = a * b - x)
 S2(0,FF,FF,sCF, r = x + b * a)
 S2(0,FF,FF,sCF, r = x - a * b)
 S2(0,FF,FF,sCF, r = b * x)
 S2(0,FF,FF,sCF, r = b * a - x)
 S2(0,FF,FF,sCF, r = x - b * a)
 S2(0,FF,FF,sCF, r = a - b * x)
 S2(0,FF,FF,sCF, r = b * x - a)
 S2(NZ,FF,FF,sCF, r /= b)
 S3(0,FF,FF,sCF,FF, r = b * a + e)
 S3(0,FF,FF,sCF,FF, r = a * b + e)
 S3(0,FF,FF,sCF,FF, r = e + b * a)
 S3(0,FF,FF,sCF,FF, r = e + a * b)
 S3(0,FF,FF,sCF,FF, r = b * a - e)
 S3(0,FF,FF,sCF,FF, r = a * b - e)
 S3(0,FF,FF,sCF,FF, r = e - b * a)
 S3(0,FF,FF,sCF,FF, r = e - a * b)
}
VF_TABLE(cblas_F_2) {
 S4(0,FF,FF,sCF,FF,sCF, r = b * a + g * e)
 S4(0,FF,FF,sCF,FF,sCF, r = b * a + e * g)
 S4(0,FF,FF,sCF,FF,sCF, r = a * b + g * e)
 S4(0,FF,FF,sCF,FF,sCF, r = a * b + e * g)
 S3(0,FF,FF,sCF,sCF, r = b * x + e * a)
 S3(0,FF,FF,sCF,sCF, r = b * a + e * x)
 S4(0,FF,FF,sCF,FF,sCF, r = b * a - g * e)
 S4(0,FF,FF,sCF,FF,sCF, r = b * a - e * g)
 S4(0,FF,FF,sCF,FF,sCF, r = a * b - g * e)
 S4(0,FF,FF,sCF,FF,sCF, r = a * b - e * g)
 S3(0,FF,FF,sCF,sCF, r = b * x - e * a)
 S3(0,FF,FF,sCF,sCF, r = b * a - e * x)
}
VF_TABLE(cblas_D) {
 S2(0,FD,FD,sCD, r *= b)
 S2(0,FD,FD,sCD, r = b * a)
 S2(0,FD,FD,sCD, r = a * b)
 S2(0,FD,FD,sCD, r += b * a)
 S2(0,FD,FD,sCD, r += a * b)
 S2(0,FD,FD,sCD, r -= b * a)
 S2(0,FD,FD,sCD, r -= a * b)
 S2(0,FD,FD,sCD, r = b * x + a)
 S2(0,FD,FD,sCD, r = x * b + a)
 S2(0,FD,FD,sCD, r = a + b * x)
 S2(0,FD,FD,sCD, r = a - x * b)
 S2(0,FD,FD,sCD, r = b * a + x)
 S2(0,FD,FD,sCD, r = a * b - x)
 S2(0,FD,FD,sCD, r = x + b * a)
 S2(0,FD,FD,sCD, r = x - a * b)
 S2(0,FD,FD,sCD, r = b * x)
 S2(0,FD,FD,sCD, r = b * a - x)
 S2(0,FD,FD,sCD, r = x - b * a)
 S2(0,FD,FD,sCD, r = a - b * x)
 S2(0,FD,FD,sCD, r = b * x - a)
 S2(NZ,FD,FD,sCD, r /= b)
 S3(0,FD,FD,sCD,FD, r = b * a + e)
 S3(0,FD,FD,sCD,FD, r = a * b + e)
 S3(0,FD,FD,sCD,FD, r = e + b * a)
 S3(0,FD,FD,sCD,FD, r = e + a * b)
 S3(0,FD,FD,sCD,FD, r = b * a - e)
 S3(0,FD,FD,sCD,FD, r = a * b - e)
 S3(0,FD,FD,sCD,FD, r = e - b * a)
 S3(0,FD,FD,sCD,FD, r = e - a * b)
}
VF_TABLE(cblas_D_2) {
 S4(0,FD,FD,sCD,FD,sCD, r = b * a + g * e)
 S4(0,FD,FD,sCD,FD,sCD, r = b * a + e * g)
 S4(0,FD,FD,sCD,FD,sCD, r = a * b + g * e)
 S4(0,FD,FD,sCD,FD,sCD, r = a * b + e * g)
 S3(0,FD,FD,sCD,sCD, r = b * x + e * a)
 S3(0,FD,FD,sCD,sCD, r = b * a + e * x)
 S4(0,FD,FD,sCD,FD,sCD, r = b * a - g * e)
 S4(0,FD,FD,sCD,FD,sCD, r = b * a - e * g)
 S4(0,FD,FD,sCD,FD,sCD, r = a * b - g * e)
 S4(0,FD,FD,sCD,FD,sCD, r = a * b - e * g)
 S3(0,FD,FD,sCD,sCD, r = b * x - e * a)
 S3(0,FD,FD,sCD,sCD, r = b * a - e * x)
}
}
