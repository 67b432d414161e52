// P08: spin projection and reconstruction, plain forms
#include "proj.h"
namespace vf {
typedef OLattice<PSpinVector<PScalar<RComplex<REAL>>, 2>> HW; typedef OScalar<PSpinVector<PScalar<RComplex<REAL>>, 2>> sHW;
VF_TABLE(plain) {
  PJ_(H,F,F, r = PR(a)) PJ_(F,H,H, r = RC(a)) PJ_(H,F,F, r += PR(a)) PJ_(H,F,F, r -= PR(a)) PJ_(F,H,H, r += RC(a)) PJ_(F,H,H, r -= RC(a))
  PJ_(F,F,F, r = RC(PR(a))) PJ_(F,F,F, r += RC(PR(a))) PJ_(H,F,F, r = PR(a + b)) PJ_(H,F,F, r = PR(a) - PR(b)) PJ_(F,H,H, r = RC(a - b)) PJ_(F,H,F, r = b + RC(a))
  PJ_(H,H,H, r = PR(RC(a))) 
}
VF_TABLE(types) {
  PJ_(HD,FD,FD, r = PR(a)) PJ_(FD,HD,HD, r = RC(a)) PJ_(HF,FF,FF, r = PR(a)) PJ_(FF,HF,HF, r = RC(a)) PJ_(HW,W,W, r = PR(a)) PJ_(W,HW,HW, r = RC(a)) PJ_(W,W,W, r = RC(PR(a)))
  PJ_(sH,sF,sF, r = PR(a)) PJ_(sF,sH,sH, r = RC(a)) PJ_(sHW,sW,sW, r = PR(a)) PJ_(sW,sHW,sHW, r = RC(a)) PJ_(FD,FD,FD, r += RC(PR(a))) PJ_(HD,FD,FD, r += PR(a)) PJ_(FD,HD,HD, r += RC(a))
}
}
