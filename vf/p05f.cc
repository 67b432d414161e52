// Every way to write a product or sum of two operands, with every choice of adjoints
#include "stmt.h"
namespace vf {
VF_TABLE(products_0) {
  S2(0,M,C,M, r = adj(a) * b)   S2(0,S,C,S, r = a * adj(b))   S2(0,P,C,P, r = adj(a) * adj(b))   S2(0,C,C,sC, r = adj(a) * adj(b))
  S2(0,M,C,sM, r = a * adj(b))   S2(0,S,C,sS, r = a * adj(b))   S2(0,P,C,sP, r = a * adj(b))   S2(0,W,C,W, r = adj(a) * b)
  S2(0,X,C,X, r = adj(a) * b)   S2(0,V,sV,C, r = a * b)   S2(0,W,C,sW, r = a * b)   S2(0,P,R,P, r = a * b)
  S2(0,P,R,sP, r = a * b)   S2(0,V,R,sV, r = a * b)   S2(0,W,R,sW, r = a * b)   S2(0,M,M,C, r = adj(a) * adj(b))
  S2(0,P,M,P, r = a * adj(b))   S2(0,M,M,sC, r = adj(a) * adj(b))   S2(0,P,M,sS, r = a * b)   S2(0,P,M,sP, r = a * b)
  S2(0,V,M,sV, r = adj(a) * b)   S2(0,S,S,C, r = a * adj(b))   S2(0,P,S,M, r = adj(a) * adj(b))   S2(0,S,S,sC, r = adj(a) * b)
  S2(0,P,S,sM, r = a * b)   S2(0,S,S,sS, r = a * b)   S2(0,P,S,sP, r = a * b)   S2(0,F,S,sF, r = a * b)
  S2(0,P,P,C, r = a * b)   S2(0,P,P,M, r = adj(a) * b)   S2(0,P,P,sC, r = a * b)   S2(0,P,P,sR, r = a * b)
  S2(0,P,P,sM, r = adj(a) * adj(b))   S2(0,P,P,sP, r = adj(a) * b)   S2(0,F,P,sF, r = adj(a) * b)   S2(0,C,sC,C, r = adj(a) * adj(b))
  S2(0,M,sC,M, r = adj(a) * adj(b))   S2(0,S,sC,S, r = adj(a) * adj(b))   S2(0,V,sC,V, r = adj(a) * b)   S2(0,W,sC,W, r = adj(a) * b)
  S2(0,H,H,sC, r = a * b)   S2(0,S,sR,S, r = a * b)   S2(0,H,sR,H, r = a * b)   S2(0,M,sM,C, r = a * b)
  S2(0,M,sM,R, r = a * b)   S2(0,P,sM,S, r = adj(a) * b)   S2(0,P,sM,P, r = a * adj(b))   S2(0,X,sM,X, r = a * b)
  S2(0,S,sS,C, r = a * adj(b))   S2(0,P,sS,M, r = adj(a) * b)   S2(0,S,sS,S, r = a * adj(b))   S2(0,P,sS,P, r = adj(a) * adj(b))
  S2(0,P,sP,C, r = a * b)   S2(0,P,sP,R, r = a * b)   S2(0,P,sP,M, r = adj(a) * adj(b))   S2(0,P,sP,S, r = adj(a) * adj(b))
  S2(0,F,sP,F, r = adj(a) * b)   S2(0,P,C,P, r = a + b)   S2(0,C,C,sR, r = a - b)   S2(0,S,C,sS, r = a - b)
  S2(0,S,R,S, r = a + b)   S2(0,C,R,sC, r = a + b)   S2(0,S,R,sS, r = a + b)   S2(0,M,M,C, r = a - b)
  S2(0,M,M,sC, r = a + b)   S2(0,P,M,sP, r = a + b)   S2(0,S,S,R, r = a - b)   S2(0,S,S,sR, r = a + b)
  S2(0,P,S,sP, r = a + b)   S2(0,P,P,R, r = a - b)   S2(0,P,P,sC, r = a + b)   S2(0,P,P,sM, r = a + b)
  S2(0,P,P,sP, r = a + b)   S2(0,C,sC,R, r = a - b)   S2(0,S,sC,S, r = a - b)   S2(0,C,sR,C, r = a - b)
  S2(0,P,sR,P, r = a + b)   S2(0,M,sM,R, r = a + b)   S2(0,P,sM,P, r = a - b)   S2(0,S,sS,R, r = a - b)
  S2(0,P,sS,P, r = a - b)   S2(0,P,sP,R, r = a - b)   S2(0,P,sP,S, r = a - b)
}
}
