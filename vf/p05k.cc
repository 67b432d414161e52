// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_1) {
  A1(0,C,-a)  A1(0,C,real(a))  A1(0,C,timesMinusI(a))  A1(0,F,imag(a))  A1(0,H,localNorm2(a))  A1(0,M,realTrace(a))  A1(0,M,trace(a))  A1(0,P,-a)  A1(0,P,traceColor(a))
  A1(0,P,transposeSpin(a))  A1(0,R,+a)  A1(0,W,-a)  A1(0,W,conj(a))  A1(0,X,timesMinusI(a))  A1(0,sC,adj(a))  A1(0,sF,real(a))  A1(0,sM,+a)  A2(0,C,R,a*b)  A2(0,C,R,a+b)
  A2(0,C,RD,imagTrace(a*b))  A2(0,C,S,a+b)  A2(0,C,W,a*b)  A2(0,C,sR,outerProduct(a,b))  A2(0,C,sS,traceSpin(a*b))  A2(0,CD,C,adj(a)*b)  A2(0,CD,CD,outerProduct(a,b))
  A2(0,CD,CD,traceColor(a*b))  A2(0,CD,M,trace(adj(a)*b))  A2(0,CD,MD,a-b)  A2(0,CD,P,a*b)  A2(0,CD,R,a*b)  A2(0,F,C,a*adj(b))  A2(0,F,F,localInnerProductReal(a,b))
  A2(0,M,C,adj(a)*adj(b))  A2(0,M,C,localInnerProduct(a,b))  A2(0,M,C,realTrace(a*b))  A2(0,M,C,traceColor(a*b))  A2(0,M,M,adj(a)*b)  A2(0,M,P,a+b)
  A2(0,M,PD,trace(adj(a)*b))  A2(0,M,PD,traceSpin(a*b))  A2(0,M,sM,localInnerProduct(a,b))  A2(0,M,sS,adj(a)*b)  A2(0,MD,CD,adj(a)*adj(b))  A2(0,MD,MD,a*b)
  A2(0,MD,R,a-b)  A2(0,P,C,a*b)  A2(0,P,R,adj(a*b))  A2(0,P,S,a+b)  A2(0,P,S,localInnerProduct(a,b))  A2(0,P,S,realTrace(a*b))  A2(0,P,W,a*b)  A2(0,PD,C,a*b)
  A2(0,PD,C,imagTrace(a*b))  A2(0,PD,PD,traceSpin(a*b))  A2(0,R,C,a*b)  A2(0,R,X,adj(a)*b)  A2(0,RD,C,a+b)  A2(0,RD,MD,trace(a*b))
  A2(0,RD,RD,localColorInnerProduct(a,b))  A2(0,RD,VD,a*b)  A2(0,S,C,a+b)  A2(0,S,C,a-b)  A2(0,S,C,trace(a*b))  A2(0,S,F,a*b)  A2(0,S,M,trace(a*b))
  A2(0,S,M,traceSpin(a*b))  A2(0,S,S,a+b)  A2(0,S,S,adj(a)*adj(b))  A2(0,S,S,imagTrace(a*b))  A2(0,S,S,realTrace(a*b))  A2(0,S,S,trace(a*b))  A2(0,S,W,adj(a)*b)
  A2(0,S,sW,a*b)  A2(0,V,S,a*b)  A2(0,V,V,a+b)  A2(0,V,W,a*b)  A2(0,VD,C,a*b)  A2(0,X,R,a*adj(b))  A2(0,X,X,a+b)  A2(0,X,X,localInnerProductReal(a,b))
  A2(0,sC,sC,traceColor(a*b))  A2(0,sM,S,a*b)  A2(0,sM,sS,localInnerProduct(a,b))  A2(0,sP,P,adj(a)*b)  A2(0,sP,P,localInnerProduct(a,b))  A2(0,sR,R,trace(adj(a)*b))
  A2(0,sR,S,realTrace(a*b))  A2(0,sR,V,a*b)  A2(0,sR,sC,imagTrace(a*b))  A2(0,sS,C,imagTrace(a*b))  A2(0,sS,S,localInnerProductReal(a,b))  A2(0,sS,sC,trace(adj(a)*b))
  A2(0,sS,sV,a*b)  A2(0,sW,sC,a*adj(b))  A2(NZ,H,R,a/b)
}
}
