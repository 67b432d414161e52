#include "stmt.h"
namespace vf {
VF_TABLE(mixed_precision) {
  S1(0,MD,MF, r = a) S1(0,MF,MD, r = a) S1(0,FD,FF, r = a) S1(0,FF,FD, r = a) S1(0,PD,PF, r = a) S1(0,PF,PD, r = a) S1(0,CD,CF, r = a) S1(0,CF,CD, r = a) S1(0,RD,RF, r = a) S1(0,RF,RD, r = a) S1(0,VD,VF_, r = a) S1(0,VF_,VD, r = a) S1(0,HD,HF, r = a)
  S2(0,MD,MD,MD, r = a * b) S2(0,MD,MD,MD, r = adj(a) * b) S2(0,MD,MD,MD, r = a * adj(b)) S2(0,MD,MD,MD, r = adj(a) * adj(b)) S2(0,MD,MD,MD, r += a * b) S2(0,MD,MF,MD, r = a * b) S2(0,MD,MD,MF, r = a + b) S2(0,MD,MF,MD, r = adj(a) * b)
  S2(0,FD,MD,FD, r = a * b) S2(0,FD,MD,FD, r = adj(a) * b) S2(0,FD,MF,FD, r = a * b) S2(0,FD,FD,FF, r = a + b) S2(0,FD,FF,FD, r = a - b) S2(0,CD,FD,FD, r = localInnerProduct(a, b)) S2(0,CD,FF,FD, r = localInnerProduct(a, b)) S1(0,RD,FD, r = localNorm2(a)) S2(0,FD,sRD,FD, r = a * b) S2(0,FF,sRD,FF, r = a * b) S2(0,FF,sRF,FF, r = a * b) S2(0,FD,sRF,FD, r = a * b) S2(0,FD,sCD,FD, r = a * b) S2(0,FD,CD,FD, r = a * b) S2(0,FD,FD,FD, r = a + b) S2(0,FD,FD,FD, r = a - b)
  S3(0,FD,sRD,FD,FD, r = a * b + e) S3(0,FF,sRD,FF,FF, r = a * b + e) S2(0,PD,PD,PD, r = a * b) S1(0,CD,PD, r = trace(a)) S2(0,PD,MD,PD, r = a * b) S2(0,CD,PD,PD, r = trace(adj(a) * b)) S1(0,RD,MF, r = localNorm2(a)) S1(0,CD,MF, r = trace(a)) S2(0,CD,MD,MD, r = trace(a * adj(b))) S2(0,HD,MD,HD, r = a * b) S2(0,HD,MD,HD, r = adj(a) * b) S2(0,VD,MD,VD, r = a * b) S2(0,VD,MD,VD, r = adj(a) * b) S2(0,VD,MF,VF_, r = a * b) S2(NZ,MD,MD,sRD, r = a / b) S2(0,CD,CD,CF, r = a * b) S2(NZ,CD,CD,CD, r = a / b) S2(0,CD,RD,RF, r = cmplx(a, b)) S1(0,FF,FD, r += a) S1(0,FD,FF, r -= a) S1(0,MF,MD, r += a) S1(0,FF,sRD, r *= a) S1(NZ,FD,sRF, r /= a) S2(0,MF,sRD,MF, r = a * b) S2(0,MF,sCF,MF, r = a * b) S2(0,MD,sCD,MD, r = a * b) S2(0,MD,sMD,MD, r = a * b) S1(0,MD,MD, r = adj(a)) S1(0,MD,MD, r = transpose(a)) S2(0,PD,FD,FD, r = outerProduct(a, b)) S2(0,FF,sCD,FF, r = a * b)
  S2(0,FF,FF,FF, r = a + b) S2(0,FF,MF,FF, r = a * b) S2(0,FF,MF,FF, r = adj(a) * b) S2(0,MF,MF,MF, r = a * b) S2(0,MF,MF,MF, r = adj(a) * b) S2(0,MF,MF,MF, r = a * adj(b)) S1(0,CF,MF, r = trace(a)) S2(0,PF,PF,PF, r = a * b)
}
VF_TABLE(arbitrary_nc) {
  typedef LatticeColorMatrixF1 M1; typedef LatticeColorMatrixF2 M2; typedef LatticeColorMatrixD1 N1; typedef LatticeColorMatrixD2 N2; typedef LatticeColorVectorF2 V2; typedef LatticePropagatorF2 P2; 
  S2(0,M2,M2,M2, r = a * b) S2(0,M2,M2,M2, r = adj(a) * b) S2(0,M2,M2,M2, r += a * adj(b)) S2(0,M1,M1,M1, r = a * b) S2(0,N2,N2,N2, r = adj(a) * adj(b)) S1(0,CF,M2, r = trace(a)) S2(0,V2,M2,V2, r = a * b) S2(0,V2,M2,V2, r = adj(a) * b) S1(0,RF,M2, r = localNorm2(a)) S2(0,M2,V2,V2, r = outerProduct(a, b)) S2(0,P2,M2,P2, r = a * b) S1(0,P2,P2, r = adj(a)) S2(0,N1,N1,N1, r = a - b)
}
}
