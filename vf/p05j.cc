// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_0) {
  A1(0,F,+a)  A1(0,M,-a)  A1(0,R,conj(a))  A1(0,R,realTrace(a))  A1(0,S,adj(a))  A1(0,S,localNorm2(a))  A1(0,S,timesMinusI(a))  A1(0,sM,timesMinusI(a))
  A1(0,sR,imagTrace(a))  A1(0,sW,+a)  A1(0,sW,imag(a))  A2(0,C,C,localInnerProductReal(a,b))  A2(0,C,C,outerProduct(a,b))  A2(0,C,M,realTrace(a*b))  A2(0,C,MD,a+b)
  A2(0,C,MD,imagTrace(a*b))  A2(0,C,P,a*adj(b))  A2(0,C,sS,trace(adj(a)*b))  A2(0,CD,M,adj(a)*adj(b))  A2(0,H,R,a*adj(b))  A2(0,M,M,localInnerProductReal(a,b))
  A2(0,M,MD,a*adj(b))  A2(0,M,R,a-b)  A2(0,M,RD,trace(a*b))  A2(0,M,S,localInnerProduct(a,b))  A2(0,M,sC,trace(adj(a)*b))  A2(0,M,sP,traceColor(a*b))
  A2(0,MD,C,trace(adj(a)*b))  A2(0,MD,P,adj(a)*b)  A2(0,P,F,a*b)  A2(0,P,M,a-b)  A2(0,P,M,localInnerProduct(a,b))  A2(0,P,M,realTrace(a*b))  A2(0,P,P,trace(adj(a)*b))
  A2(0,P,P,traceSpin(a*b))  A2(0,P,S,a*b)  A2(0,P,S,imagTrace(a*b))  A2(0,P,S,traceColor(a*b))  A2(0,P,W,adj(a)*b)  A2(0,P,sC,adj(a)*b)  A2(0,P,sR,traceSpin(a*b))
  A2(0,P,sS,adj(a)*b)  A2(0,P,sS,localInnerProduct(a,b))  A2(0,P,sS,trace(adj(a)*b))  A2(0,PD,MD,trace(a*b))  A2(0,PD,MD,traceColor(a*b))  A2(0,PD,P,a*b)
  A2(0,PD,PD,adj(a)*adj(b))  A2(0,R,C,adj(a)*adj(b))  A2(0,R,C,adj(a)*b)  A2(0,R,C,outerProduct(a,b))  A2(0,R,C,trace(a*adj(b)))  A2(0,R,H,adj(a)*b)
  A2(0,R,M,imagTrace(a*b))  A2(0,R,P,imagTrace(a*b))  A2(0,R,P,realTrace(a*b))  A2(0,R,P,trace(a*b))  A2(0,R,R,adj(a)*adj(b))  A2(0,R,R,cmplx(a,b))  A2(0,R,S,adj(a)*b)
  A2(0,R,S,traceSpin(a*b))  A2(0,S,C,traceSpin(a*b))  A2(0,S,F,adj(a)*b)  A2(0,S,P,a*adj(b))  A2(0,S,P,adj(a)*b)  A2(0,S,P,localInnerProduct(a,b))
  A2(0,S,P,traceSpin(a*b))  A2(0,S,R,a*b)  A2(0,S,R,realTrace(a*b))  A2(0,S,S,a*b)  A2(0,S,sS,imagTrace(a*b))  A2(0,V,C,a*b)  A2(0,V,R,a*adj(b))  A2(0,V,V,a-b)
  A2(0,V,V,localInnerProduct(a,b))  A2(0,W,W,a-b)  A2(0,W,W,localInnerProduct(a,b))  A2(0,W,W,localInnerProductReal(a,b))  A2(0,W,W,traceSpin(outerProduct(a,b)))
  A2(0,sC,C,adj(a)*adj(b))  A2(0,sC,C,trace(a*b))  A2(0,sC,sM,localInnerProductReal(a,b))  A2(0,sF,sF,a+b)  A2(0,sF,sF,localInnerProduct(a,b))  A2(0,sM,sM,a*adj(b))
  A2(0,sP,C,a*adj(b))  A2(0,sP,M,localInnerProductReal(a,b))  A2(0,sP,sS,adj(a)*adj(b))  A2(0,sR,C,a+b)  A2(0,sR,S,a-b)  A2(0,sS,F,adj(a)*b)  A2(0,sS,M,traceColor(a*b))
  A2(0,sW,V,a*b)  A2(0,sW,sC,a*b)  A2(NZ,P,R,a/b)  A2(NZ,VD,CD,a/b)  A2(NZ,sF,C,a/b)
}
}
