// P10: SU(3) matrix expression shapes
#include "dirac.h"
namespace vf {
typedef LatticeStaggeredFermionF XF; typedef LatticeStaggeredFermionD XD; typedef LatticeStaggeredPropagatorF QF; typedef LatticeStaggeredPropagatorD QD;
typedef ColorMatrixF sMF; typedef ColorVectorF sVF; typedef ColorVectorD sVD; typedef FermionF sFF; typedef HalfFermionF sHF; typedef HalfFermionD sHD; typedef PropagatorF sPF; typedef PropagatorD sPD;
VF_TABLE(mp_F) {
 S2(0,PF,MF,PF, r = a * b)
 S2(0,PF,MF,PF, r = adj(a) * b)
 S2(0,PF,MF,PF, r += a * b)
 S2(0,PF,MF,PF, r += adj(a) * b)
 S2(0,PF,MF,PF, r -= a * b)
 S2(0,PF,MF,PF, r -= adj(a) * b)
 S2(0,PF,sMF,PF, r = a * b)
 S2(0,PF,MF,sPF, r = a * b)
 S2(0,sPF,sMF,sPF, r = a * b)
 S2(0,PF,sMF,PF, r = adj(a) * b)
 S2(0,PF,MF,sPF, r = adj(a) * b)
 S2(0,sPF,sMF,sPF, r = adj(a) * b)
 S3(0,PF,MF,PF,PF, r = a * (b + e))
 S2(0,PF,PF,PF, r = a + b)
 S3(0,PF,MF,PF,PF, r = a * b + e)
 S3(0,PF,MF,PF,PF, r = e - adj(a) * b)
 S3(0,PF,MF,MF,PF, r = a * (b * e))
 S3(0,PF,MF,MF,PF, r = adj(a) * (adj(b) * e))
 S3(0,PF,MF,MF,PF, r = (a * b) * e)
 S3(0,PF,MF,MF,PF, r = adj(a * b) * e)
 S2(0,PF,MF,PF, r = a * shift(b, FORWARD, 1))
 S2(0,PF,MF,PF, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,XF,MF,XF, r = a * b)
 S2(0,XF,MF,XF, r = adj(a) * b)
 S2(0,XF,MF,XF, r += a * b)
 S2(0,XF,MF,XF, r += adj(a) * b)
 S2(0,XF,MF,XF, r -= a * b)
 S2(0,XF,MF,XF, r -= adj(a) * b)
 S3(0,XF,MF,XF,XF, r = a * (b + e))
 S2(0,XF,XF,XF, r = a + b)
 S3(0,XF,MF,XF,XF, r = a * b + e)
 S3(0,XF,MF,XF,XF, r = e - adj(a) * b)
 S3(0,XF,MF,MF,XF, r = a * (b * e))
 S3(0,XF,MF,MF,XF, r = adj(a) * (adj(b) * e))
 S3(0,XF,MF,MF,XF, r = (a * b) * e)
 S3(0,XF,MF,MF,XF, r = adj(a * b) * e)
 S2(0,XF,MF,XF, r = a * shift(b, FORWARD, 1))
 S2(0,XF,MF,XF, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,QF,MF,QF, r = a * b)
 S2(0,QF,MF,QF, r = adj(a) * b)
 S2(0,QF,MF,QF, r += a * b)
 S2(0,QF,MF,QF, r += adj(a) * b)
 S2(0,QF,MF,QF, r -= a * b)
 S2(0,QF,MF,QF, r -= adj(a) * b)
 S3(0,QF,MF,QF,QF, r = a * (b + e))
 S2(0,QF,QF,QF, r = a + b)
 S3(0,QF,MF,QF,QF, r = a * b + e)
 S3(0,QF,MF,QF,QF, r = e - adj(a) * b)
 S3(0,QF,MF,MF,QF, r = a * (b * e))
 S3(0,QF,MF,MF,QF, r = adj(a) * (adj(b) * e))
 S3(0,QF,MF,MF,QF, r = (a * b) * e)
 S3(0,QF,MF,MF,QF, r = adj(a * b) * e)
 S2(0,QF,MF,QF, r = a * shift(b, FORWARD, 1))
 S2(0,QF,MF,QF, r = shift(adj(a) * b, BACKWARD, 2))
}
VF_TABLE(mp_D) {
 S2(0,PD,MD,PD, r = a * b)
 S2(0,PD,MD,PD, r = adj(a) * b)
 S2(0,PD,MD,PD, r += a * b)
 S2(0,PD,MD,PD, r += adj(a) * b)
 S2(0,PD,MD,PD, r -= a * b)
 S2(0,PD,MD,PD, r -= adj(a) * b)
 S3(0,PD,MD,PD,PD, r = a * (b + e))
 S2(0,PD,PD,PD, r = a + b)
 S3(0,PD,MD,PD,PD, r = a * b + e)
 S3(0,PD,MD,PD,PD, r = e - adj(a) * b)
 S3(0,PD,MD,MD,PD, r = a * (b * e))
 S3(0,PD,MD,MD,PD, r = adj(a) * (adj(b) * e))
 S3(0,PD,MD,MD,PD, r = (a * b) * e)
 S3(0,PD,MD,MD,PD, r = adj(a * b) * e)
 S2(0,PD,MD,PD, r = a * shift(b, FORWARD, 1))
 S2(0,PD,MD,PD, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,XD,MD,XD, r = a * b)
 S2(0,XD,MD,XD, r = adj(a) * b)
 S2(0,XD,MD,XD, r += a * b)
 S2(0,XD,MD,XD, r += adj(a) * b)
 S2(0,XD,MD,XD, r -= a * b)
 S2(0,XD,MD,XD, r -= adj(a) * b)
 S3(0,XD,MD,XD,XD, r = a * (b + e))
 S2(0,XD,XD,XD, r = a + b)
 S3(0,XD,MD,XD,XD, r = a * b + e)
 S3(0,XD,MD,XD,XD, r = e - adj(a) * b)
 S3(0,XD,MD,MD,XD, r = a * (b * e))
 S3(0,XD,MD,MD,XD, r = adj(a) * (adj(b) * e))
 S3(0,XD,MD,MD,XD, r = (a * b) * e)
 S3(0,XD,MD,MD,XD, r = adj(a * b) * e)
 S2(0,XD,MD,XD, r = a * shift(b, FORWARD, 1))
 S2(0,XD,MD,XD, r = shift(adj(a) * b, BACKWARD, 2))
}
}
