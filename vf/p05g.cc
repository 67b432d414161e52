// Every way to write a product or sum of two operands, with every choice of adjoints
#include "stmt.h"
namespace vf {
VF_TABLE(products_1) {
  S2(0,M,C,M, r = a * adj(b))   S2(0,S,C,S, r = adj(a) * adj(b))   S2(0,C,C,sC, r = a * b)   S2(0,C,C,sR, r = a * b)
  S2(0,M,C,sM, r = adj(a) * adj(b))   S2(0,S,C,sS, r = adj(a) * adj(b))   S2(0,P,C,sP, r = adj(a) * adj(b))   S2(0,W,W,C, r = a * b)
  S2(0,X,X,C, r = a * b)   S2(0,F,C,sF, r = a * b)   S2(0,W,C,sW, r = adj(a) * b)   S2(0,C,R,sC, r = a * b)
  S2(0,W,R,W, r = a * b)   S2(0,V,sV,R, r = a * b)   S2(0,W,sW,R, r = a * b)   S2(0,P,M,S, r = adj(a) * b)
  S2(0,P,M,P, r = adj(a) * adj(b))   S2(0,M,M,sM, r = adj(a) * b)   S2(0,P,M,sS, r = adj(a) * b)   S2(0,P,M,sP, r = adj(a) * b)
  S2(0,F,M,sF, r = adj(a) * b)   S2(0,S,S,C, r = adj(a) * adj(b))   S2(0,P,S,P, r = a * adj(b))   S2(0,S,S,sC, r = a * adj(b))
  S2(0,P,S,sM, r = adj(a) * b)   S2(0,S,S,sS, r = adj(a) * b)   S2(0,P,S,sP, r = adj(a) * b)   S2(0,F,S,sF, r = adj(a) * b)
  S2(0,P,P,C, r = adj(a) * b)   S2(0,P,P,M, r = adj(a) * adj(b))   S2(0,P,P,sC, r = adj(a) * b)   S2(0,P,P,sM, r = a * b)
  S2(0,P,P,sS, r = adj(a) * b)   S2(0,P,P,sP, r = a * adj(b))   S2(0,C,sC,C, r = a * b)   S2(0,C,sC,R, r = a * b)
  S2(0,S,sC,S, r = a * b)   S2(0,P,sC,P, r = adj(a) * b)   S2(0,V,V,sC, r = a * b)   S2(0,W,W,sC, r = a * b)
  S2(0,X,sC,X, r = a * b)   S2(0,V,sR,V, r = a * b)   S2(0,H,H,sR, r = a * b)   S2(0,M,sM,C, r = adj(a) * b)
  S2(0,M,sM,M, r = a * adj(b))   S2(0,P,sM,S, r = a * adj(b))   S2(0,P,sM,P, r = adj(a) * adj(b))   S2(0,X,sM,X, r = adj(a) * b)
  S2(0,S,sS,C, r = adj(a) * adj(b))   S2(0,P,sS,M, r = a * adj(b))   S2(0,S,sS,S, r = adj(a) * adj(b))   S2(0,F,sS,F, r = adj(a) * b)
  S2(0,P,sP,C, r = adj(a) * b)   S2(0,P,sP,M, r = a * b)   S2(0,P,sP,S, r = a * b)   S2(0,P,sP,P, r = adj(a) * b)
  S2(0,M,C,M, r = a + b)   S2(0,P,C,P, r = a - b)   S2(0,M,C,sM, r = a + b)   S2(0,P,C,sP, r = a + b)
  S2(0,S,R,S, r = a - b)   S2(0,C,R,sC, r = a - b)   S2(0,S,R,sS, r = a - b)   S2(0,M,M,R, r = a - b)
  S2(0,M,M,sR, r = a + b)   S2(0,P,M,sP, r = a - b)   S2(0,P,S,P, r = a - b)   S2(0,S,S,sR, r = a - b)
  S2(0,P,S,sP, r = a - b)   S2(0,P,P,M, r = a - b)   S2(0,P,P,sC, r = a - b)   S2(0,P,P,sM, r = a - b)
  S2(0,P,P,sP, r = a - b)   S2(0,M,sC,M, r = a + b)   S2(0,P,sC,P, r = a + b)   S2(0,M,sR,M, r = a - b)
  S2(0,P,sR,P, r = a - b)   S2(0,M,sM,R, r = a - b)   S2(0,S,sS,C, r = a + b)   S2(0,S,sS,S, r = a + b)
  S2(0,P,sP,C, r = a + b)   S2(0,P,sP,M, r = a + b)   S2(0,P,sP,P, r = a + b)
}
}
