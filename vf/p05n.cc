// Every unary and binary operation on every combination of types that QDP++ accepts,
// assigned to a destination of the type it computes for the expression
#include "stmt.h"
namespace vf {
VF_TABLE(auto_4) {
  A1(0,F,-a)  A1(0,P,imag(a))  A1(0,S,-a)  A1(0,S,imagTrace(a))  A1(0,S,transpose(a))  A1(0,S,transposeSpin(a))  A1(0,V,imag(a))  A1(0,sM,realTrace(a))
  A1(0,sV,timesMinusI(a))  A2(0,C,C,a+b)  A2(0,C,F,adj(a)*b)  A2(0,C,FD,adj(a)*b)  A2(0,C,H,adj(a)*b)  A2(0,C,M,imagTrace(a*b))  A2(0,C,M,trace(adj(a)*b))
  A2(0,C,P,trace(a*b))  A2(0,C,P,traceColor(a*b))  A2(0,C,R,outerProduct(a,b))  A2(0,C,S,realTrace(a*b))  A2(0,C,sS,localInnerProductReal(a,b))
  A2(0,CD,PD,realTrace(a*b))  A2(0,F,C,a*b)  A2(0,F,RD,a*b)  A2(0,FD,FD,localInnerProduct(a,b))  A2(0,H,C,a*b)  A2(0,H,H,localInnerProductReal(a,b))
  A2(0,HD,HD,traceSpin(outerProduct(a,b)))  A2(0,M,C,a+b)  A2(0,M,C,imagTrace(a*b))  A2(0,M,F,a*b)  A2(0,M,MD,imagTrace(a*b))  A2(0,M,P,a*b)  A2(0,M,R,a+b)
  A2(0,M,R,realTrace(a*b))  A2(0,M,R,realTrace(adj(a)*b))  A2(0,M,S,a*adj(b))  A2(0,M,S,trace(adj(a)*b))  A2(0,M,S,traceColor(a*b))  A2(0,M,V,a*b)  A2(0,M,sM,adj(a)*b)
  A2(0,MD,VD,adj(a)*b)  A2(0,P,C,imagTrace(a*b))  A2(0,P,CD,adj(a)*b)  A2(0,P,CD,localInnerProductReal(a,b))  A2(0,P,M,localInnerProductReal(a,b))
  A2(0,P,P,traceColor(a*b))  A2(0,P,R,a-b)  A2(0,P,R,trace(a*adj(b)))  A2(0,P,R,traceColor(a*b))  A2(0,P,S,localInnerProductReal(a,b))  A2(0,P,S,trace(a*b))
  A2(0,PD,CD,localInnerProduct(a,b))  A2(0,PD,P,realTrace(a*b))  A2(0,R,C,realTrace(a*b))  A2(0,R,FD,a*b)  A2(0,R,M,adj(a)*adj(b))  A2(0,R,M,trace(a*b))
  A2(0,R,M,traceColor(a*b))  A2(0,R,P,traceColor(a*b))  A2(0,R,R,a-b)  A2(0,R,S,trace(a*adj(b)))  A2(0,R,W,adj(a)*b)  A2(0,R,X,a*b)  A2(0,RD,M,realTrace(a*b))
  A2(0,S,C,localInnerProductReal(a,b))  A2(0,S,M,imagTrace(a*b))  A2(0,S,S,a-b)  A2(0,S,S,adj(a)*b)  A2(0,S,S,localInnerProduct(a,b))
  A2(0,S,S,localInnerProductReal(a,b))  A2(0,S,sM,trace(a*b))  A2(0,V,V,localInnerProductReal(a,b))  A2(0,W,M,a*adj(b))  A2(0,X,C,a*b)  A2(0,sC,P,a*b)
  A2(0,sC,sP,traceSpin(a*b))  A2(0,sM,C,a*b)  A2(0,sM,M,adj(a)*adj(b))  A2(0,sM,W,a*b)  A2(0,sP,M,trace(adj(a)*b))  A2(0,sP,W,adj(a)*b)  A2(0,sR,R,traceSpin(a*b))
  A2(0,sR,sX,a*b)  A2(0,sS,sS,realTrace(a*b))  A2(0,sS,sW,adj(a)*b)  A2(0,sV,V,localColorInnerProduct(a,b))  A2(0,sV,sV,a-b)  A2(0,sW,W,localInnerProductReal(a,b))
  A2(0,sW,sW,localInnerProduct(a,b))  A2(NZ,C,CD,a/b)  A2(NZ,F,CD,a/b)  A2(NZ,H,C,a/b)  A2(NZ,PD,CD,a/b)  S2(0,C,F,F,r = trace(adj(a) * b))
  S2(0,C,V,V,r = trace(adj(a) * b))  S2(0,C,X,X,r = trace(adj(a) * b))
}
}
