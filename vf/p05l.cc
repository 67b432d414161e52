// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_2) {
  A1(0,C,+a)  A1(0,C,localNorm2(a))  A1(0,H,real(a))  A1(0,M,localNorm2(a))  A1(0,M,timesI(a))  A1(0,P,realTrace(a))  A1(0,R,imagTrace(a))  A1(0,R,real(a))
  A1(0,S,real(a))  A1(0,S,timesI(a))  A1(0,S,trace(a))  A1(0,V,+a)  A1(0,X,-a)  A1(0,X,conj(a))  A1(0,sH,timesI(a))  A1(0,sR,realTrace(a))  A1(0,sS,conj(a))
  A1(0,sV,conj(a))  A2(0,C,C,a*b)  A2(0,C,CD,localInnerProductReal(a,b))  A2(0,C,F,a*b)  A2(0,C,M,a-b)  A2(0,C,M,adj(a)*b)  A2(0,C,M,trace(a*b))  A2(0,C,P,a*b)
  A2(0,C,P,a+b)  A2(0,C,P,adj(a)*b)  A2(0,C,PD,adj(a)*b)  A2(0,C,PD,trace(adj(a)*b))  A2(0,C,R,adj(a*b))  A2(0,C,R,realTrace(adj(a)*b))  A2(0,C,R,trace(a*adj(b)))
  A2(0,C,X,adj(a)*b)  A2(0,CD,MD,trace(a*b))  A2(0,F,F,localInnerProduct(a,b))  A2(0,F,R,a*adj(b))  A2(0,H,H,a-b)  A2(0,H,H,traceSpin(outerProduct(a,b)))
  A2(0,M,C,trace(adj(a)*b))  A2(0,M,H,a*b)  A2(0,M,P,traceColor(a*b))  A2(0,M,R,a*adj(b))  A2(0,M,R,a*b)  A2(0,M,R,adj(a*b))  A2(0,M,R,trace(a*b))
  A2(0,M,S,localInnerProductReal(a,b))  A2(0,M,X,adj(a)*b)  A2(0,M,sH,a*b)  A2(0,M,sP,a-b)  A2(0,M,sS,traceSpin(a*b))  A2(0,MD,M,realTrace(a*b))  A2(0,P,C,trace(a*b))
  A2(0,P,M,trace(adj(a)*b))  A2(0,P,M,traceColor(a*b))  A2(0,P,R,adj(a)*b)  A2(0,P,R,realTrace(adj(a)*b))  A2(0,P,R,trace(a*b))  A2(0,P,sC,a+b)  A2(0,PD,CD,a+b)
  A2(0,PD,CD,realTrace(a*b))  A2(0,PD,CD,trace(a*b))  A2(0,R,C,a+b)  A2(0,R,M,real(trace(a*b)))  A2(0,R,R,a*adj(b))  A2(0,R,R,realTrace(a*b))  A2(0,R,S,a*adj(b))
  A2(0,R,S,trace(a*b))  A2(0,R,sF,a*b)  A2(0,RD,CD,realTrace(a*b))  A2(0,RD,P,traceColor(a*b))  A2(0,RD,R,outerProduct(a,b))  A2(0,RD,R,traceSpin(a*b))
  A2(0,S,C,trace(adj(a)*b))  A2(0,S,C,traceColor(a*b))  A2(0,S,P,a*b)  A2(0,S,P,realTrace(a*b))  A2(0,S,R,a*adj(b))  A2(0,S,R,a-b)  A2(0,S,R,imagTrace(a*b))
  A2(0,S,V,a*b)  A2(0,W,V,a*b)  A2(0,X,X,outerProduct(a,b))  A2(0,sC,C,localColorInnerProduct(a,b))  A2(0,sC,M,adj(a)*b)  A2(0,sC,P,localInnerProductReal(a,b))
  A2(0,sC,S,adj(a)*adj(b))  A2(0,sF,sC,a*b)  A2(0,sH,C,a*adj(b))  A2(0,sM,sM,trace(adj(a)*b))  A2(0,sP,sW,a*b)  A2(0,sS,sP,localInnerProduct(a,b))  A2(0,sX,X,a+b)
  A2(NZ,C,sC,a/b)  A2(NZ,M,RD,a/b)  A2(NZ,R,C,a/b)  A2(NZ,S,C,a/b)
}
}
