// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_6) {
  A1(0,C,timesI(a))  A1(0,H,imag(a))  A1(0,M,adj(a))  A1(0,M,imag(a))  A1(0,P,timesI(a))  A1(0,R,trace(a))  A1(0,S,conj(a))  A1(0,W,+a)  A1(0,W,real(a))
  A1(0,W,timesMinusI(a))  A1(0,X,real(a))  A1(0,sF,localNorm2(a))  A1(0,sR,-a)  A1(0,sS,-a)  A2(0,C,C,traceSpin(a*b))  A2(0,C,CD,traceSpin(a*b))  A2(0,C,M,a+b)
  A2(0,C,P,trace(adj(a)*b))  A2(0,C,S,adj(a)*b)  A2(0,C,S,localInnerProduct(a,b))  A2(0,C,S,trace(a*b))  A2(0,C,S,trace(adj(a)*b))  A2(0,C,sM,trace(a*b))
  A2(0,C,sS,traceColor(a*b))  A2(0,CD,C,trace(a*b))  A2(0,CD,CD,a+b)  A2(0,CD,CD,a-b)  A2(0,CD,CD,localInnerProduct(a,b))  A2(0,CD,MD,a*adj(b))
  A2(0,F,F,traceSpin(outerProduct(a,b)))  A2(0,H,R,a*b)  A2(0,M,C,a*b)  A2(0,M,P,adj(a)*b)  A2(0,M,P,trace(adj(a)*b))  A2(0,M,R,adj(a)*adj(b))  A2(0,M,S,a*b)
  A2(0,M,S,imagTrace(a*b))  A2(0,M,S,trace(a*b))  A2(0,M,W,adj(a)*b)  A2(0,M,sP,imagTrace(a*b))  A2(0,M,sR,a*b)  A2(0,P,C,adj(a)*b)  A2(0,P,F,adj(a)*b)
  A2(0,P,M,a*adj(b))  A2(0,P,MD,realTrace(a*b))  A2(0,P,P,a*b)  A2(0,P,R,traceSpin(a*b))  A2(0,P,sM,a*b)  A2(0,P,sR,a*b)  A2(0,PD,P,a*adj(b))  A2(0,R,C,a*adj(b))
  A2(0,R,C,adj(a*b))  A2(0,R,M,a*b)  A2(0,R,R,a+b)  A2(0,R,R,localInnerProduct(a,b))  A2(0,R,R,traceColor(a*b))  A2(0,R,RD,a-b)  A2(0,R,S,adj(a*b))  A2(0,R,sR,cmplx(a,b))
  A2(0,RD,RD,adj(a)*b)  A2(0,S,C,a*adj(b))  A2(0,S,C,localInnerProduct(a,b))  A2(0,S,M,a*b)  A2(0,S,P,imagTrace(a*b))  A2(0,S,P,localInnerProductReal(a,b))
  A2(0,S,R,realTrace(adj(a)*b))  A2(0,S,V,adj(a)*b)  A2(0,S,sC,realTrace(a*b))  A2(0,S,sS,a-b)  A2(0,V,R,a*b)  A2(0,V,sV,outerProduct(a,b))  A2(0,W,C,a*adj(b))
  A2(0,W,C,a*b)  A2(0,W,W,a+b)  A2(0,X,X,traceSpin(outerProduct(a,b)))  A2(0,sC,H,a*b)  A2(0,sC,sC,a*adj(b))  A2(0,sC,sM,traceColor(a*b))
  A2(0,sF,F,traceSpin(outerProduct(a,b)))  A2(0,sH,sH,a-b)  A2(0,sM,M,trace(a*b))  A2(0,sM,sP,a*adj(b))  A2(0,sM,sV,adj(a)*b)  A2(0,sP,sC,localInnerProduct(a,b))
  A2(0,sP,sP,traceSpin(a*b))  A2(0,sP,sS,localInnerProductReal(a,b))  A2(0,sP,sS,realTrace(a*b))  A2(0,sR,C,a*b)  A2(0,sR,R,a-b)  A2(0,sS,P,trace(adj(a)*b))
  A2(0,sS,S,trace(adj(a)*b))  A2(0,sS,sP,adj(a)*b)  A2(NZ,M,C,a/b)  A2(NZ,M,sR,a/b)  A2(NZ,sF,sR,a/b)  S2(0,C,FD,FD,r = trace(adj(a) * b))
}
}
