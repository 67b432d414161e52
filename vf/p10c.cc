// P10: SU(3) matrix expression shapes
#include "dirac.h"
namespace vf {
typedef LatticeStaggeredFermionF XF; typedef LatticeStaggeredFermionD XD; typedef LatticeStaggeredPropagatorF QF; typedef LatticeStaggeredPropagatorD QD;
typedef ColorMatrixF sMF; typedef ColorVectorF sVF; typedef ColorVectorD sVD; typedef FermionF sFF; typedef HalfFermionF sHF; typedef HalfFermionD sHD; typedef PropagatorF sPF; typedef PropagatorD sPD;
VF_TABLE(mv_F) {
 S2(0,VF_,MF,VF_, r = a * b)
 S2(0,VF_,MF,VF_, r = adj(a) * b)
 S2(0,VF_,MF,VF_, r += a * b)
 S2(0,VF_,MF,VF_, r += adj(a) * b)
 S2(0,VF_,MF,VF_, r -= a * b)
 S2(0,VF_,MF,VF_, r -= adj(a) * b)
 S2(0,VF_,sMF,VF_, r = a * b)
 S2(0,VF_,MF,sVF, r = a * b)
 S2(0,sVF,sMF,sVF, r = a * b)
 S2(0,VF_,sMF,VF_, r = adj(a) * b)
 S2(0,VF_,MF,sVF, r = adj(a) * b)
 S2(0,sVF,sMF,sVF, r = adj(a) * b)
 S3(0,VF_,MF,VF_,VF_, r = a * (b + e))
 S2(0,VF_,VF_,VF_, r = a + b)
 S3(0,VF_,MF,VF_,VF_, r = a * b + e)
 S3(0,VF_,MF,VF_,VF_, r = e - adj(a) * b)
 S3(0,VF_,MF,MF,VF_, r = a * (b * e))
 S3(0,VF_,MF,MF,VF_, r = adj(a) * (adj(b) * e))
 S3(0,VF_,MF,MF,VF_, r = (a * b) * e)
 S3(0,VF_,MF,MF,VF_, r = adj(a * b) * e)
 S2(0,VF_,MF,VF_, r = a * shift(b, FORWARD, 1))
 S2(0,VF_,MF,VF_, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,HF,MF,HF, r = a * b)
 S2(0,HF,MF,HF, r = adj(a) * b)
 S2(0,HF,MF,HF, r += a * b)
 S2(0,HF,MF,HF, r += adj(a) * b)
 S2(0,HF,MF,HF, r -= a * b)
 S2(0,HF,MF,HF, r -= adj(a) * b)
 S2(0,HF,sMF,HF, r = a * b)
 S2(0,HF,MF,sHF, r = a * b)
 S2(0,sHF,sMF,sHF, r = a * b)
 S2(0,HF,sMF,HF, r = adj(a) * b)
 S2(0,HF,MF,sHF, r = adj(a) * b)
 S2(0,sHF,sMF,sHF, r = adj(a) * b)
 S3(0,HF,MF,HF,HF, r = a * (b + e))
 S2(0,HF,HF,HF, r = a + b)
 S3(0,HF,MF,HF,HF, r = a * b + e)
 S3(0,HF,MF,HF,HF, r = e - adj(a) * b)
 S3(0,HF,MF,MF,HF, r = a * (b * e))
 S3(0,HF,MF,MF,HF, r = adj(a) * (adj(b) * e))
 S3(0,HF,MF,MF,HF, r = (a * b) * e)
 S3(0,HF,MF,MF,HF, r = adj(a * b) * e)
 S2(0,HF,MF,HF, r = a * shift(b, FORWARD, 1))
 S2(0,HF,MF,HF, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,FF,MF,FF, r = a * b)
 S2(0,FF,MF,FF, r = adj(a) * b)
 S2(0,FF,MF,FF, r += a * b)
 S2(0,FF,MF,FF, r += adj(a) * b)
 S2(0,FF,MF,FF, r -= a * b)
 S2(0,FF,MF,FF, r -= adj(a) * b)
 S2(0,FF,sMF,FF, r = a * b)
 S2(0,FF,MF,sFF, r = a * b)
 S2(0,sFF,sMF,sFF, r = a * b)
 S2(0,FF,sMF,FF, r = adj(a) * b)
 S2(0,FF,MF,sFF, r = adj(a) * b)
 S2(0,sFF,sMF,sFF, r = adj(a) * b)
 S3(0,FF,MF,FF,FF, r = a * (b + e))
 S2(0,FF,FF,FF, r = a + b)
 S3(0,FF,MF,FF,FF, r = a * b + e)
 S3(0,FF,MF,FF,FF, r = e - adj(a) * b)
 S3(0,FF,MF,MF,FF, r = a * (b * e))
 S3(0,FF,MF,MF,FF, r = adj(a) * (adj(b) * e))
 S3(0,FF,MF,MF,FF, r = (a * b) * e)
 S3(0,FF,MF,MF,FF, r = adj(a * b) * e)
 S2(0,FF,MF,FF, r = a * shift(b, FORWARD, 1))
 S2(0,FF,MF,FF, r = shift(adj(a) * b, BACKWARD, 2))
}
}
