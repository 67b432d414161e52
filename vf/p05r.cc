// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_8) {
  A1(0,C,trace(a))  A1(0,M,conj(a))  A1(0,P,conj(a))  A1(0,P,imagTrace(a))  A1(0,P,real(a))  A1(0,P,transpose(a))  A1(0,R,adj(a))  A1(0,R,timesMinusI(a))  A1(0,S,+a)
  A1(0,S,traceSpin(a))  A1(0,V,timesI(a))  A1(0,W,timesI(a))  A1(0,X,imag(a))  A1(0,X,timesI(a))  A1(0,sV,+a)  A2(0,C,C,a-b)  A2(0,C,P,localInnerProduct(a,b))
  A2(0,C,P,localInnerProductReal(a,b))  A2(0,C,S,imagTrace(a*b))  A2(0,C,S,traceColor(a*b))  A2(0,C,X,a*b)  A2(0,C,sP,trace(adj(a)*b))  A2(0,F,R,a*b)
  A2(0,H,H,outerProduct(a,b))  A2(0,H,sR,a*b)  A2(0,M,C,adj(a)*b)  A2(0,M,M,a+b)  A2(0,M,M,adj(a)*adj(b))  A2(0,M,M,localInnerProduct(a,b))  A2(0,M,M,realTrace(a*b))
  A2(0,M,PD,localInnerProduct(a,b))  A2(0,M,S,adj(a)*adj(b))  A2(0,M,V,adj(a)*b)  A2(0,MD,C,a+b)  A2(0,MD,M,localInnerProduct(a,b))  A2(0,P,M,traceSpin(a*b))
  A2(0,P,P,adj(a)*adj(b))  A2(0,P,P,localInnerProductReal(a,b))  A2(0,P,P,trace(a*b))  A2(0,P,R,a*adj(b))  A2(0,P,R,imagTrace(a*b))  A2(0,P,S,trace(adj(a)*b))
  A2(0,P,S,traceSpin(a*b))  A2(0,P,V,a*b)  A2(0,P,sM,a*adj(b))  A2(0,PD,M,adj(a)*b)  A2(0,PD,M,imagTrace(a*b))  A2(0,PD,P,traceColor(a*b))  A2(0,PD,R,a*b)
  A2(0,PD,RD,a-b)  A2(0,R,C,trace(a*b))  A2(0,R,H,a*b)  A2(0,R,M,a+b)  A2(0,R,M,trace(a*adj(b)))  A2(0,R,P,a*adj(b))  A2(0,R,P,a*b)  A2(0,R,P,adj(a*b))
  A2(0,R,P,traceSpin(a*b))  A2(0,R,V,adj(a)*b)  A2(0,R,sP,realTrace(a*b))  A2(0,R,sR,localInnerProductReal(a,b))  A2(0,R,sR,realTrace(a*b))  A2(0,R,sS,a+b)
  A2(0,RD,RD,localInnerProductReal(a,b))  A2(0,S,C,imagTrace(a*b))  A2(0,S,C,realTrace(a*b))  A2(0,S,M,trace(adj(a)*b))  A2(0,S,P,a-b)  A2(0,S,R,adj(a)*adj(b))
  A2(0,S,R,traceSpin(a*b))  A2(0,V,V,localColorInnerProduct(a,b))  A2(0,VD,V,localInnerProductReal(a,b))  A2(0,X,X,a-b)  A2(0,sC,M,trace(adj(a)*b))
  A2(0,sH,sH,localInnerProduct(a,b))  A2(0,sM,sC,realTrace(a*b))  A2(0,sM,sH,adj(a)*b)  A2(0,sM,sV,a*b)  A2(0,sP,M,trace(a*b))  A2(0,sP,P,adj(a)*adj(b))
  A2(0,sP,P,realTrace(a*b))  A2(0,sP,S,a+b)  A2(0,sP,V,adj(a)*b)  A2(0,sP,sF,adj(a)*b)  A2(0,sR,R,localInnerProduct(a,b))  A2(0,sR,R,outerProduct(a,b))  A2(0,sR,sC,a-b)
  A2(0,sS,C,a+b)  A2(0,sS,P,imagTrace(a*b))  A2(0,sS,P,trace(a*b))  A2(0,sS,sM,adj(a)*b)  A2(0,sX,X,a-b)  A2(NZ,HD,RD,a/b)  A2(NZ,M,R,a/b)  A2(NZ,V,R,a/b)  A2(NZ,W,R,a/b)
}
}
