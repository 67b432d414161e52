// Colour contractions, outer products and colour inner products against explicit index sums.
#include "eps.h"
namespace vf {
VF_TABLE(contract1) {
  S3(0,C,M,M,M, r = colorContract(a, b, e)) S3(0,C,M,M,M, r += colorContract(a, b, e)) S3(0,C,M,M,M, r = colorContract(b, a, e)) S3(0,C,M,M,M, r -= colorContract(a, a, e)) S2(0,C,M,M, r = colorContract(a, b, b)) S1(0,C,M, r = colorContract(a, a, a)) S3(0,C,M,M,M, r = colorContract(a * b, b, e)) S3(0,C,M,M,M, r = colorContract(a, adj(b), e)) S3(0,C,M,M,M, r = colorContract(a, b, a + e)) S3(0,C,M,M,M, r = colorContract(a + b, a * b, e)) S3(0,C,M,M,M, r = colorContract(a - b, b, -e)) S3(0,C,M,M,M, r = colorContract(a, b + e, a * e)) S3(0,C,M,M,M, r = colorContract(adj(a), transpose(b), conj(e)))
  S3(0,C,M,sM,M, r = colorContract(a, b, e)) S3(0,C,sM,M,M, r = colorContract(a, b, e)) S3(0,C,M,M,sM, r = colorContract(a, b, e)) S3(0,sC,sM,sM,sM, r = colorContract(a, b, e)) S3(0,R,M,M,M, r = real(colorContract(a, b, e))) S4(0,C,M,M,M,C, r = g * colorContract(a, b, e)) S4(0,C,M,M,M,M, r = colorContract(a, b, e) + colorContract(b, e, g))
  S3(0,C,V,V,V, r = colorContract(a, b, e)) S3(0,C,V,V,V, r -= colorContract(a, b, e)) S2(0,C,V,V, r = colorContract(a, b, a)) S3(0,C,V,V,V, r = colorContract(e, b, a)) S3(0,C,V,V,V, r = colorContract(a + b, b - e, e)) S3(0,C,M,V,V, r = colorContract(a * b, e, b)) S3(0,C,V,V,sV, r = colorContract(a, b, e)) S3(0,C,sV,V,V, r = colorContract(a, b, e)) S3(0,sC,sV,sV,sV, r = colorContract(a, b, e)) S3(0,C,V,V,V, r = colorContract(a, b, conj(e)))
  S2(0,C,V,V, r = colorVectorContract(a, b)) S2(0,C,V,V, r += colorVectorContract(a, b)) S2(0,C,V,V, r = colorVectorContract(conj(a), b)) S2(0,C,V,V, r = colorVectorContract(a, a + b)) S3(0,C,M,V,V, r = colorVectorContract(a * b, e)) S2(0,C,sV,V, r = colorVectorContract(a, b)) S2(0,C,V,sV, r = colorVectorContract(a, b)) S2(0,sC,sV,sV, r = colorVectorContract(a, b)) S2(0,R,V,V, r = imag(colorVectorContract(a, b)))
  S2(0,V,V,V, r = colorCrossProduct(a, b)) S2(0,V,V,V, r += colorCrossProduct(b, a)) S2(0,V,V,V, r -= colorCrossProduct(a, b)) S1(0,V,V, r = colorCrossProduct(a, a)) S3(0,V,M,V,V, r = colorCrossProduct(a * b, e)) S3(0,V,M,V,V, r = a * colorCrossProduct(b, e)) S3(0,C,V,V,V, r = colorVectorContract(a, colorCrossProduct(b, e))) S3(0,V,V,V,V, r = colorCrossProduct(colorCrossProduct(a, b), e)) S2(0,V,sV,V, r = colorCrossProduct(a, b)) S2(0,V,V,sV, r = colorCrossProduct(a, b)) S2(0,sV,sV,sV, r = colorCrossProduct(a, b)) S3(0,V,V,V,C, r = e * colorCrossProduct(a, b))
}
VF_TABLE(outer) {
  S2(0,M,V,V, r = outerProduct(a, b)) S2(0,M,V,V, r += outerProduct(a, b)) S2(0,M,V,V, r = adj(outerProduct(a, b))) S1(0,M,V, r = outerProduct(a, a)) S3(0,M,M,V,V, r = a * outerProduct(b, e)) S3(0,M,M,V,V, r = outerProduct(a * b, e)) S2(0,C,V,V, r = trace(outerProduct(a, b))) S2(0,C,V,V, r = traceColor(outerProduct(a, b))) S2(0,sM,sV,sV, r = outerProduct(a, b)) S2(0,M,sV,V, r = outerProduct(a, b)) S2(0,M,V,sV, r = outerProduct(a, b))
  S2(0,P,F,F, r = outerProduct(a, b)) S2(0,P,F,F, r -= outerProduct(a, b)) S2(0,C,F,F, r = trace(outerProduct(a, b))) S2(0,M,F,F, r = traceSpin(outerProduct(a, b))) S2(0,M,F,F, r += traceSpin(outerProduct(a, b))) S2(0,S,F,F, r = traceColor(outerProduct(a, b))) S3(0,P,M,F,F, r = outerProduct(a * b, e)) S2(0,M,F,F, r = traceSpin(outerProduct(a + b, b))) S2(0,M,F,F, r = adj(traceSpin(outerProduct(a, b)))) S2(0,sP,sF,sF, r = outerProduct(a, b)) S2(0,sM,sF,sF, r = traceSpin(outerProduct(a, b))) S2(0,M,sF,F, r = traceSpin(outerProduct(a, b))) S3(0,M,F,F,M, r = e * traceSpin(outerProduct(a, b)))
  S2(0,S,W,W, r = outerProduct(a, b)) S2(0,C,W,W, r = trace(outerProduct(a, b))) S2(0,C,W,W, r = traceSpin(outerProduct(a, b))) S2(0,XP,X,X, r = outerProduct(a, b)) S2(0,C,X,X, r = trace(outerProduct(a, b)))
  S2(0,C,V,V, r = localColorInnerProduct(a, b)) S2(0,C,V,V, r += localColorInnerProduct(a, b)) S1(0,C,V, r = localColorInnerProduct(a, a)) S3(0,C,M,V,V, r = localColorInnerProduct(a * b, e)) S2(0,C,V,V, r = localColorInnerProduct(a + b, b)) S2(0,C,sV,V, r = localColorInnerProduct(a, b)) S2(0,C,V,sV, r = localColorInnerProduct(a, b)) S2(0,sC,sV,sV, r = localColorInnerProduct(a, b)) S2(0,R,V,V, r = real(localColorInnerProduct(a, b)))
}
VF_TABLE(dbl) {
  S3(0,CD,MD,MD,MD, r = colorContract(a, b, e)) S3(0,CF,MF,MF,MF, r = colorContract(a, b, e)) S3(0,CD,MF,MD,MF, r = colorContract(a, b, e)) S3(0,CD,VD,VD,VD, r = colorContract(a, b, e)) S3(0,CF,VF_,VF_,VF_, r = colorContract(a, b, e)) S2(0,CD,VD,VD, r = colorVectorContract(a, b)) S2(0,VD,VD,VD, r = colorCrossProduct(a, b)) S2(0,VD,VF_,VD, r = colorCrossProduct(a, b)) S2(0,MD,VD,VD, r = outerProduct(a, b)) S2(0,PD,FD,FD, r = outerProduct(a, b)) S2(0,MD,FD,FD, r = traceSpin(outerProduct(a, b))) S2(0,CD,VD,VD, r = localColorInnerProduct(a, b)) S2(0,PF,FF,FF, r = outerProduct(a, b)) S2(0,MF,VF_,VF_, r = outerProduct(a, b))
}
}
