// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_7) {
  A1(0,C,conj(a))  A1(0,C,transpose(a))  A1(0,F,timesI(a))  A1(0,H,conj(a))  A1(0,R,imag(a))  A1(0,V,timesMinusI(a))  A1(0,X,localNorm2(a))  A1(0,sP,timesI(a))
  A1(0,sS,transpose(a))  A2(0,C,C,adj(a)*b)  A2(0,C,M,localInnerProductReal(a,b))  A2(0,C,P,traceSpin(a*b))  A2(0,C,R,realTrace(a*b))  A2(0,C,S,traceSpin(a*b))
  A2(0,C,V,a*b)  A2(0,C,W,adj(a)*b)  A2(0,C,sF,a*b)  A2(0,C,sR,a*b)  A2(0,F,sC,a*adj(b))  A2(0,H,C,a*adj(b))  A2(0,H,H,a+b)  A2(0,M,C,a*adj(b))  A2(0,M,C,a-b)
  A2(0,M,C,localInnerProductReal(a,b))  A2(0,M,M,trace(adj(a)*b))  A2(0,M,P,realTrace(a*b))  A2(0,M,R,trace(a*adj(b)))  A2(0,M,RD,realTrace(a*b))  A2(0,M,S,adj(a)*b)
  A2(0,M,S,traceSpin(a*b))  A2(0,M,sC,imagTrace(a*b))  A2(0,MD,CD,a*adj(b))  A2(0,MD,CD,adj(a)*b)  A2(0,P,C,a-b)  A2(0,P,C,localInnerProductReal(a,b))  A2(0,P,M,a*b)
  A2(0,P,M,a+b)  A2(0,P,P,a*adj(b))  A2(0,P,P,a+b)  A2(0,P,P,realTrace(a*b))  A2(0,PD,RD,a+b)  A2(0,R,C,traceSpin(a*b))  A2(0,R,CD,outerProduct(a,b))  A2(0,R,M,a*adj(b))
  A2(0,R,M,a-b)  A2(0,R,M,realTrace(adj(a)*b))  A2(0,R,R,a*b)  A2(0,R,R,localInnerProductReal(a,b))  A2(0,R,R,trace(adj(a)*b))  A2(0,R,R,traceSpin(a*b))  A2(0,R,S,a-b)
  A2(0,R,S,imagTrace(a*b))  A2(0,R,S,realTrace(a*b))  A2(0,R,V,a*b)  A2(0,S,M,adj(a)*adj(b))  A2(0,S,M,localInnerProduct(a,b))  A2(0,S,M,localInnerProductReal(a,b))
  A2(0,S,M,realTrace(a*b))  A2(0,S,M,traceColor(a*b))  A2(0,S,P,a+b)  A2(0,S,R,trace(a*b))  A2(0,S,S,traceColor(a*b))  A2(0,S,W,a*b)  A2(0,S,sC,adj(a)*b)
  A2(0,V,C,a*adj(b))  A2(0,V,S,traceSpin(a*b))  A2(0,V,VD,a+b)  A2(0,V,sC,a*b)  A2(0,V,sV,a+b)  A2(0,W,M,a*b)  A2(0,W,W,outerProduct(a,b))  A2(0,W,sW,a+b)
  A2(0,X,X,localInnerProduct(a,b))  A2(0,sC,P,a+b)  A2(0,sC,V,a*b)  A2(0,sC,X,a*b)  A2(0,sC,sP,a-b)  A2(0,sC,sS,trace(a*b))  A2(0,sH,H,a+b)  A2(0,sH,sC,a*b)
  A2(0,sM,C,a+b)  A2(0,sM,M,realTrace(a*b))  A2(0,sM,P,adj(a)*b)  A2(0,sM,sM,a-b)  A2(0,sP,P,a+b)  A2(0,sP,sC,a-b)  A2(0,sP,sP,traceColor(a*b))  A2(0,sR,R,a+b)
  A2(0,sV,sV,localInnerProductReal(a,b))  A2(0,sX,X,traceSpin(outerProduct(a,b)))  A2(NZ,F,R,a/b)  A2(NZ,MD,CD,a/b)  A2(NZ,S,R,a/b)  A2(NZ,X,R,a/b)  A2(NZ,sX,C,a/b)
  S2(0,C,H,H,r = trace(adj(a) * b))
}
}
