// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_3) {
  A1(0,C,imag(a))  A1(0,F,real(a))  A1(0,F,timesMinusI(a))  A1(0,M,real(a))  A1(0,P,+a)  A1(0,P,adj(a))  A1(0,P,localNorm2(a))  A1(0,P,timesMinusI(a))
  A1(0,P,traceSpin(a))  A1(0,R,-a)  A1(0,R,localNorm2(a))  A1(0,R,transpose(a))  A1(0,V,-a)  A1(0,V,conj(a))  A1(0,V,localNorm2(a))  A1(0,W,imag(a))  A1(0,X,+a)
  A1(0,sH,conj(a))  A1(0,sH,localNorm2(a))  A1(0,sM,imagTrace(a))  A1(0,sP,traceSpin(a))  A2(0,C,C,adj(a)*adj(b))  A2(0,C,C,localInnerProduct(a,b))  A2(0,C,C,trace(a*b))
  A2(0,C,CD,adj(a)*adj(b))  A2(0,C,CD,localColorInnerProduct(a,b))  A2(0,C,H,a*b)  A2(0,C,M,adj(a)*adj(b))  A2(0,C,P,a-b)  A2(0,C,P,adj(a)*adj(b))  A2(0,C,PD,a+b)
  A2(0,C,R,a*adj(b))  A2(0,C,R,adj(a)*b)  A2(0,C,R,trace(a*b))  A2(0,C,S,a*adj(b))  A2(0,C,S,localInnerProductReal(a,b))  A2(0,C,sP,localInnerProduct(a,b))
  A2(0,CD,H,adj(a)*b)  A2(0,FD,C,a*adj(b))  A2(0,H,sH,outerProduct(a,b))  A2(0,M,C,trace(a*b))  A2(0,M,H,adj(a)*b)  A2(0,M,M,imagTrace(a*b))  A2(0,M,R,imag(trace(a*b)))
  A2(0,M,R,imagTrace(a*b))  A2(0,M,W,a*b)  A2(0,M,sC,a*adj(b))  A2(0,MD,CD,localInnerProduct(a,b))  A2(0,P,C,adj(a)*adj(b))  A2(0,P,C,localInnerProduct(a,b))
  A2(0,P,C,realTrace(a*b))  A2(0,P,C,traceColor(a*b))  A2(0,P,P,a-b)  A2(0,P,P,localInnerProduct(a,b))  A2(0,P,PD,imagTrace(a*b))  A2(0,P,R,a+b)  A2(0,P,S,a*adj(b))
  A2(0,P,S,adj(a)*adj(b))  A2(0,P,sP,a*b)  A2(0,PD,PD,adj(a)*b)  A2(0,PD,VD,a*b)  A2(0,R,C,imagTrace(a*b))  A2(0,R,M,adj(a*b))  A2(0,R,P,a-b)
  A2(0,R,P,realTrace(adj(a)*b))  A2(0,R,P,trace(a*adj(b)))  A2(0,R,PD,a-b)  A2(0,R,R,localColorInnerProduct(a,b))  A2(0,R,RD,trace(adj(a)*b))  A2(0,R,S,a*b)
  A2(0,R,W,a*b)  A2(0,RD,MD,a+b)  A2(0,RD,MD,imagTrace(a*b))  A2(0,RD,R,imagTrace(a*b))  A2(0,S,C,adj(a)*adj(b))  A2(0,S,R,adj(a)*b)  A2(0,S,R,trace(a*adj(b)))
  A2(0,S,R,traceColor(a*b))  A2(0,V,RD,a*b)  A2(0,V,V,outerProduct(a,b))  A2(0,W,R,a*adj(b))  A2(0,W,R,a*b)  A2(0,X,R,a*b)  A2(0,sC,C,adj(a)*b)
  A2(0,sC,sC,localInnerProductReal(a,b))  A2(0,sC,sP,traceColor(a*b))  A2(0,sC,sS,a*b)  A2(0,sM,M,imagTrace(a*b))  A2(0,sM,sC,localInnerProductReal(a,b))
  A2(0,sM,sF,adj(a)*b)  A2(0,sM,sS,realTrace(a*b))  A2(0,sR,M,trace(a*b))  A2(0,sS,M,realTrace(a*b))  A2(0,sS,sR,a+b)  A2(NZ,FD,RD,a/b)  S2(0,C,W,W,r = trace(adj(a) * b))
}
}
