// P09: BLAS expression shapes
#include "dirac.h"
namespace vf {
VF_TABLE(g5_F) {
 S2(0,FF,FF,sRF, r += b * chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r -= b * chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r = b * chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r = x + b * chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r = x - b * chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r = a + b * chiralProjectPlus(x))
 S2(0,FF,FF,sRF, r = a - b * chiralProjectPlus(x))
 S2(0,FF,FF,sRF, r = b * a + chiralProjectPlus(x))
 S2(0,FF,FF,sRF, r = b * x - chiralProjectPlus(a))
 S2(0,FF,FF,sRF, r += b * chiralProjectPlus(x))
 S1(0,FF,FF, r += chiralProjectPlus(a))
 S1(0,FF,FF, r -= chiralProjectPlus(a))
 S1(0,FF,FF, r -= chiralProjectPlus(x))
 S3(0,FF,FF,sRF,FF, r = e + b * chiralProjectPlus(a))
 S3(0,FF,FF,sRF,FF, r = e - b * chiralProjectPlus(a))
 S3(0,FF,FF,sRF,FF, r = b * a + chiralProjectPlus(e))
 S3(0,FF,FF,sRF,FF, r = b * a - chiralProjectPlus(e))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + g * chiralProjectPlus(e))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - g * chiralProjectPlus(e))
 S3(0,FF,FF,sRF,sRF, r = b * x + e * chiralProjectPlus(a))
 S3(0,FF,FF,sRF,sRF, r = b * a - e * chiralProjectPlus(x))
 S2(0,FF,FF,sRF, r += b * chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r -= b * chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r = b * chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r = x + b * chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r = x - b * chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r = a + b * chiralProjectMinus(x))
 S2(0,FF,FF,sRF, r = a - b * chiralProjectMinus(x))
 S2(0,FF,FF,sRF, r = b * a + chiralProjectMinus(x))
 S2(0,FF,FF,sRF, r = b * x - chiralProjectMinus(a))
 S2(0,FF,FF,sRF, r += b * chiralProjectMinus(x))
 S1(0,FF,FF, r += chiralProjectMinus(a))
 S1(0,FF,FF, r -= chiralProjectMinus(a))
 S1(0,FF,FF, r -= chiralProjectMinus(x))
 S3(0,FF,FF,sRF,FF, r = e + b * chiralProjectMinus(a))
 S3(0,FF,FF,sRF,FF, r = e - b * chiralProjectMinus(a))
 S3(0,FF,FF,sRF,FF, r = b * a + chiralProjectMinus(e))
 S3(0,FF,FF,sRF,FF, r = b * a - chiralProjectMinus(e))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + g * chiralProjectMinus(e))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - g * chiralProjectMinus(e))
 S3(0,FF,FF,sRF,sRF, r = b * x + e * chiralProjectMinus(a))
 S3(0,FF,FF,sRF,sRF, r = b * a - e * chiralProjectMinus(x))
}
VF_TABLE(g5_F_2) {
 S2(0,FF,FF,sRF, r = b * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S2(0,FF,FF,sRF, r += b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S2(0,FF,FF,sRF, r -= b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S2(0,FF,FF,sRF, r = x - b * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S2(0,FF,FF,sRF, r = a - b * (GammaConst<Ns, Ns * Ns - 1>() * x))
 S2(0,FF,FF,sRF, r = x + b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S2(0,FF,FF,sRF, r = x - b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S2(0,FF,FF,sRF, r = a + b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(x)))
 S2(0,FF,FF,sRF, r = b * (GammaConst<Ns, Ns * Ns - 1>() * x))
 S2(0,FF,FF,sRF, r += b * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S2(0,FF,FF,sRF, r = b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S3(0,FF,FF,sRF,FF, r = e - b * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S3(0,FF,FF,sRF,FF, r = e + b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S3(0,FF,FF,sRF,FF, r = e - b * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
 S3(0,FF,FF,sRF,FF, r = e + b * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + g * (GammaConst<Ns, Ns * Ns - 1>() * e))
 S4(0,FF,FF,sRF,FF,sRF, r = GammaConst<Ns, Ns * Ns - 1>() * (b * a - g * e))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a + g * (GammaConst<Ns, Ns * Ns - 1>() * timesI(e)))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - g * (GammaConst<Ns, Ns * Ns - 1>() * timesI(e)))
 S4(0,FF,FF,sRF,FF,sRF, r = b * a - g * (GammaConst<Ns, Ns * Ns - 1>() * e))
 S4(0,FF,FF,sRF,FF,sRF, r = GammaConst<Ns, Ns * Ns - 1>() * (b * a + g * e))
 S3(0,FF,FF,sRF,sRF, r = b * x + e * (GammaConst<Ns, Ns * Ns - 1>() * a))
 S3(0,FF,FF,sRF,sRF, r = GammaConst<Ns, Ns * Ns - 1>() * (b * x - e * a))
 S3(0,FF,FF,sRF,sRF, r = b * a + e * (GammaConst<Ns, Ns * Ns - 1>() * timesI(x)))
 S3(0,FF,FF,sRF,sRF, r = b * x - e * (GammaConst<Ns, Ns * Ns - 1>() * timesI(a)))
}
}
