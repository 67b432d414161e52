// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_9) {
  A1(0,C,adj(a))  A1(0,C,imagTrace(a))  A1(0,C,realTrace(a))  A1(0,F,conj(a))  A1(0,F,localNorm2(a))  A1(0,H,-a)  A1(0,M,+a)  A1(0,M,imagTrace(a))  A1(0,M,timesMinusI(a))
  A1(0,M,traceColor(a))  A1(0,P,transposeColor(a))  A1(0,S,realTrace(a))  A1(0,V,real(a))  A1(0,sR,localNorm2(a))  A1(0,sS,traceSpin(a))  A2(0,C,C,imagTrace(a*b))
  A2(0,C,C,localColorInnerProduct(a,b))  A2(0,C,P,imagTrace(a*b))  A2(0,C,PD,localInnerProduct(a,b))  A2(0,C,R,a-b)  A2(0,C,R,imagTrace(a*b))  A2(0,C,S,adj(a)*adj(b))
  A2(0,C,sX,adj(a)*b)  A2(0,CD,P,trace(a*b))  A2(0,CD,VD,a*b)  A2(0,CD,VD,adj(a)*b)  A2(0,F,F,outerProduct(a,b))  A2(0,F,FD,a-b)  A2(0,H,sH,traceSpin(outerProduct(a,b)))
  A2(0,HD,H,localInnerProductReal(a,b))  A2(0,M,M,trace(a*b))  A2(0,M,M,traceColor(a*b))  A2(0,M,P,a*adj(b))  A2(0,M,P,imagTrace(a*b))
  A2(0,M,P,localInnerProductReal(a,b))  A2(0,M,P,traceSpin(a*b))  A2(0,M,R,adj(a)*b)  A2(0,M,S,realTrace(a*b))  A2(0,M,X,a*b)  A2(0,MD,CD,imagTrace(a*b))  A2(0,MD,F,a*b)
  A2(0,MD,MD,traceColor(a*b))  A2(0,MD,R,a*b)  A2(0,MD,R,a+b)  A2(0,P,C,a*adj(b))  A2(0,P,C,trace(adj(a)*b))  A2(0,P,FD,a*b)  A2(0,P,M,adj(a)*b)  A2(0,P,P,imagTrace(a*b))
  A2(0,P,R,a*b)  A2(0,P,S,adj(a)*b)  A2(0,P,V,adj(a)*b)  A2(0,PD,P,a-b)  A2(0,R,C,realTrace(adj(a)*b))  A2(0,R,F,a*b)  A2(0,R,M,adj(a)*b)  A2(0,R,M,realTrace(a*b))
  A2(0,R,P,adj(a)*adj(b))  A2(0,R,PD,a*b)  A2(0,R,R,adj(a)*b)  A2(0,R,R,imagTrace(a*b))  A2(0,R,R,trace(a*b))  A2(0,R,S,adj(a)*adj(b))  A2(0,R,S,realTrace(adj(a)*b))
  A2(0,R,sS,traceSpin(a*b))  A2(0,RD,PD,traceSpin(a*b))  A2(0,RD,RD,localInnerProduct(a,b))  A2(0,S,C,adj(a)*b)  A2(0,S,M,a*adj(b))  A2(0,S,M,adj(a)*b)
  A2(0,S,P,trace(a*b))  A2(0,S,S,a*adj(b))  A2(0,S,S,traceSpin(a*b))  A2(0,S,sC,localInnerProductReal(a,b))  A2(0,V,VD,localColorInnerProduct(a,b))  A2(0,X,C,a*adj(b))
  A2(0,sC,sM,imagTrace(a*b))  A2(0,sM,R,a-b)  A2(0,sM,sC,trace(a*b))  A2(0,sM,sS,trace(adj(a)*b))  A2(0,sP,C,localInnerProductReal(a,b))  A2(0,sP,M,imagTrace(a*b))
  A2(0,sP,sM,adj(a)*adj(b))  A2(0,sP,sR,realTrace(a*b))  A2(0,sR,H,a*b)  A2(0,sS,P,traceSpin(a*b))  A2(0,sS,sM,adj(a)*adj(b))  A2(0,sS,sP,a*b)
  A2(0,sS,sS,localInnerProduct(a,b))  A2(0,sV,R,a*b)  A2(NZ,C,C,a/b)  A2(NZ,P,C,a/b)  A2(NZ,V,C,a/b)  A2(NZ,X,C,a/b)  A2(NZ,sR,sC,a/b)  A2(NZ,sS,R,a/b)
}
}
