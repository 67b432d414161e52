// P10: SU(3) matrix expression shapes
#include "dirac.h"
namespace vf {
typedef LatticeStaggeredFermionF XF; typedef LatticeStaggeredFermionD XD; typedef LatticeStaggeredPropagatorF QF; typedef LatticeStaggeredPropagatorD QD;
typedef ColorMatrixF sMF; typedef ColorVectorF sVF; typedef ColorVectorD sVD; typedef FermionF sFF; typedef HalfFermionF sHF; typedef HalfFermionD sHD; typedef PropagatorF sPF; typedef PropagatorD sPD;
VF_TABLE(mv_D) {
 S2(0,VD,MD,VD, r = a * b)
 S2(0,VD,MD,VD, r = adj(a) * b)
 S2(0,VD,MD,VD, r += a * b)
 S2(0,VD,MD,VD, r += adj(a) * b)
 S2(0,VD,MD,VD, r -= a * b)
 S2(0,VD,MD,VD, r -= adj(a) * b)
 S2(0,VD,sMD,VD, r = a * b)
 S2(0,VD,MD,sVD, r = a * b)
 S2(0,sVD,sMD,sVD, r = a * b)
 S2(0,VD,sMD,VD, r = adj(a) * b)
 S2(0,VD,MD,sVD, r = adj(a) * b)
 S2(0,sVD,sMD,sVD, r = adj(a) * b)
 S3(0,VD,MD,VD,VD, r = a * (b + e))
 S2(0,VD,VD,VD, r = a + b)
 S3(0,VD,MD,VD,VD, r = a * b + e)
 S3(0,VD,MD,VD,VD, r = e - adj(a) * b)
 S3(0,VD,MD,MD,VD, r = a * (b * e))
 S3(0,VD,MD,MD,VD, r = adj(a) * (adj(b) * e))
 S3(0,VD,MD,MD,VD, r = (a * b) * e)
 S3(0,VD,MD,MD,VD, r = adj(a * b) * e)
 S2(0,VD,MD,VD, r = a * shift(b, FORWARD, 1))
 S2(0,VD,MD,VD, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,HD,MD,HD, r = a * b)
 S2(0,HD,MD,HD, r = adj(a) * b)
 S2(0,HD,MD,HD, r += a * b)
 S2(0,HD,MD,HD, r += adj(a) * b)
 S2(0,HD,MD,HD, r -= a * b)
 S2(0,HD,MD,HD, r -= adj(a) * b)
 S2(0,HD,sMD,HD, r = a * b)
 S2(0,HD,MD,sHD, r = a * b)
 S2(0,sHD,sMD,sHD, r = a * b)
 S2(0,HD,sMD,HD, r = adj(a) * b)
 S2(0,HD,MD,sHD, r = adj(a) * b)
 S2(0,sHD,sMD,sHD, r = adj(a) * b)
 S3(0,HD,MD,HD,HD, r = a * (b + e))
 S2(0,HD,HD,HD, r = a + b)
 S3(0,HD,MD,HD,HD, r = a * b + e)
 S3(0,HD,MD,HD,HD, r = e - adj(a) * b)
 S3(0,HD,MD,MD,HD, r = a * (b * e))
 S3(0,HD,MD,MD,HD, r = adj(a) * (adj(b) * e))
 S3(0,HD,MD,MD,HD, r = (a * b) * e)
 S3(0,HD,MD,MD,HD, r = adj(a * b) * e)
 S2(0,HD,MD,HD, r = a * shift(b, FORWARD, 1))
 S2(0,HD,MD,HD, r = shift(adj(a) * b, BACKWARD, 2))
 S2(0,FD,MD,FD, r = a * b)
 S2(0,FD,MD,FD, r = adj(a) * b)
 S2(0,FD,MD,FD, r += a * b)
 S2(0,FD,MD,FD, r += adj(a) * b)
 S2(0,FD,MD,FD, r -= a * b)
 S2(0,FD,MD,FD, r -= adj(a) * b)
 S2(0,FD,sMD,FD, r = a * b)
 S2(0,FD,MD,sFD, r = a * b)
 S2(0,sFD,sMD,sFD, r = a * b)
 S2(0,FD,sMD,FD, r = adj(a) * b)
 S2(0,FD,MD,sFD, r = adj(a) * b)
 S2(0,sFD,sMD,sFD, r = adj(a) * b)
 S3(0,FD,MD,FD,FD, r = a * (b + e))
 S2(0,FD,FD,FD, r = a + b)
 S3(0,FD,MD,FD,FD, r = a * b + e)
 S3(0,FD,MD,FD,FD, r = e - adj(a) * b)
 S3(0,FD,MD,MD,FD, r = a * (b * e))
 S3(0,FD,MD,MD,FD, r = adj(a) * (adj(b) * e))
 S3(0,FD,MD,MD,FD, r = (a * b) * e)
 S3(0,FD,MD,MD,FD, r = adj(a * b) * e)
 S2(0,FD,MD,FD, r = a * shift(b, FORWARD, 1))
 S2(0,FD,MD,FD, r = shift(adj(a) * b, BACKWARD, 2))
}
}
