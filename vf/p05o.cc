// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_5) {
  A1(0,H,+a)  A1(0,H,timesI(a))  A1(0,H,timesMinusI(a))  A1(0,M,transpose(a))  A1(0,P,trace(a))  A1(0,R,timesI(a))  A1(0,S,imag(a))  A1(0,W,localNorm2(a))
  A1(0,sM,trace(a))  A1(0,sS,adj(a))  A1(0,sV,-a)  A1(0,sV,localNorm2(a))  A1(0,sW,timesMinusI(a))  A2(0,C,C,a*adj(b))  A2(0,C,C,realTrace(a*b))
  A2(0,C,C,trace(adj(a)*b))  A2(0,C,C,traceColor(a*b))  A2(0,C,M,a*adj(b))  A2(0,C,M,a*b)  A2(0,C,M,localInnerProduct(a,b))  A2(0,C,M,traceColor(a*b))
  A2(0,C,P,realTrace(a*b))  A2(0,C,R,adj(a)*adj(b))  A2(0,C,RD,realTrace(a*b))  A2(0,C,S,a*b)  A2(0,C,S,a-b)  A2(0,C,V,adj(a)*b)  A2(0,C,sC,imagTrace(a*b))
  A2(0,C,sC,localInnerProduct(a,b))  A2(0,CD,P,traceSpin(a*b))  A2(0,F,F,a+b)  A2(0,F,F,a-b)  A2(0,FD,F,a+b)  A2(0,H,H,localInnerProduct(a,b))  A2(0,M,F,adj(a)*b)
  A2(0,M,M,a*adj(b))  A2(0,M,M,a*b)  A2(0,M,M,a-b)  A2(0,M,MD,a+b)  A2(0,M,P,a-b)  A2(0,M,P,adj(a)*adj(b))  A2(0,M,P,localInnerProduct(a,b))  A2(0,M,P,trace(a*b))
  A2(0,M,R,traceColor(a*b))  A2(0,M,sS,localInnerProductReal(a,b))  A2(0,M,sX,adj(a)*b)  A2(0,MD,P,a*adj(b))  A2(0,P,C,a+b)  A2(0,P,C,traceSpin(a*b))  A2(0,P,FD,adj(a)*b)
  A2(0,P,M,adj(a)*adj(b))  A2(0,P,M,imagTrace(a*b))  A2(0,P,M,trace(a*b))  A2(0,P,P,adj(a)*b)  A2(0,P,R,adj(a)*adj(b))  A2(0,P,R,realTrace(a*b))  A2(0,P,S,a-b)
  A2(0,P,sV,a*b)  A2(0,PD,M,trace(adj(a)*b))  A2(0,PD,PD,localInnerProductReal(a,b))  A2(0,R,C,a-b)  A2(0,R,F,adj(a)*b)  A2(0,R,P,a+b)  A2(0,R,P,adj(a)*b)
  A2(0,R,R,outerProduct(a,b))  A2(0,R,S,a+b)  A2(0,R,S,traceColor(a*b))  A2(0,R,sR,traceColor(a*b))  A2(0,S,C,a*b)  A2(0,S,P,adj(a)*adj(b))  A2(0,S,P,trace(adj(a)*b))
  A2(0,S,P,traceColor(a*b))  A2(0,S,R,a+b)  A2(0,S,R,adj(a*b))  A2(0,S,S,trace(adj(a)*b))  A2(0,S,sS,traceSpin(a*b))  A2(0,V,S,a*adj(b))  A2(0,sC,C,trace(adj(a)*b))
  A2(0,sC,R,a+b)  A2(0,sM,C,a-b)  A2(0,sM,P,realTrace(a*b))  A2(0,sP,P,a*adj(b))  A2(0,sP,S,imagTrace(a*b))  A2(0,sP,sP,localInnerProductReal(a,b))
  A2(0,sP,sP,trace(adj(a)*b))  A2(0,sR,sM,a-b)  A2(0,sR,sR,adj(a)*adj(b))  A2(0,sV,W,a*b)  A2(0,sW,sW,a-b)  A2(NZ,C,R,a/b)  A2(NZ,CD,RD,a/b)  A2(NZ,F,C,a/b)
  A2(NZ,R,R,a/b)  A2(NZ,RD,CD,a/b)  A2(NZ,V,RD,a/b)  A2(NZ,W,C,a/b)
}
}
