// Every way to write a product or sum of two operands, with every choice of adjoints
#include "stmt.h"
namespace vf {
VF_TABLE(products_2) {
  S2(0,M,C,M, r = adj(a) * adj(b))   S2(0,P,C,P, r = adj(a) * b)   S2(0,C,C,sC, r = adj(a) * b)   S2(0,M,C,sM, r = a * b)
  S2(0,S,C,sS, r = a * b)   S2(0,P,C,sP, r = a * b)   S2(0,V,C,V, r = adj(a) * b)   S2(0,H,C,H, r = adj(a) * b)
  S2(0,V,C,sV, r = a * b)   S2(0,F,C,sF, r = adj(a) * b)   S2(0,W,sW,C, r = a * b)   S2(0,M,R,sM, r = a * b)
  S2(0,H,H,R, r = a * b)   S2(0,F,R,sF, r = a * b)   S2(0,M,M,C, r = adj(a) * b)   S2(0,P,M,S, r = a * adj(b))
  S2(0,M,M,sC, r = adj(a) * b)   S2(0,M,M,sM, r = a * adj(b))   S2(0,P,M,sS, r = a * adj(b))   S2(0,P,M,sP, r = a * adj(b))
  S2(0,S,S,C, r = a * b)   S2(0,P,S,M, r = adj(a) * b)   S2(0,P,S,P, r = adj(a) * adj(b))   S2(0,S,S,sC, r = adj(a) * adj(b))
  S2(0,P,S,sM, r = a * adj(b))   S2(0,S,S,sS, r = a * adj(b))   S2(0,P,S,sP, r = a * adj(b))   S2(0,W,S,sW, r = a * b)
  S2(0,P,P,C, r = a * adj(b))   S2(0,P,P,S, r = adj(a) * b)   S2(0,P,P,sC, r = a * adj(b))   S2(0,P,P,sM, r = adj(a) * b)
  S2(0,P,P,sS, r = a * adj(b))   S2(0,P,P,sP, r = adj(a) * adj(b))   S2(0,C,sC,C, r = adj(a) * b)   S2(0,M,sC,M, r = adj(a) * b)
  S2(0,S,sC,S, r = adj(a) * b)   S2(0,P,sC,P, r = a * adj(b))   S2(0,F,sC,F, r = adj(a) * b)   S2(0,H,sC,H, r = a * b)
  S2(0,X,sC,X, r = adj(a) * b)   S2(0,W,sR,W, r = a * b)   S2(0,X,sR,X, r = a * b)   S2(0,M,sM,C, r = a * adj(b))
  S2(0,M,sM,M, r = adj(a) * adj(b))   S2(0,P,sM,S, r = adj(a) * adj(b))   S2(0,H,sM,H, r = a * b)   S2(0,S,sS,C, r = a * b)
  S2(0,S,sS,R, r = a * b)   S2(0,P,sS,M, r = adj(a) * adj(b))   S2(0,P,sS,P, r = adj(a) * b)   S2(0,W,sS,W, r = a * b)
  S2(0,P,sP,C, r = a * adj(b))   S2(0,P,sP,M, r = adj(a) * b)   S2(0,P,sP,S, r = adj(a) * b)   S2(0,P,sP,P, r = a * adj(b))
  S2(0,S,C,S, r = a + b)   S2(0,C,C,sC, r = a + b)   S2(0,M,C,sM, r = a - b)   S2(0,P,C,sP, r = a - b)
  S2(0,P,R,P, r = a + b)   S2(0,M,R,sM, r = a + b)   S2(0,P,R,sP, r = a + b)   S2(0,P,M,P, r = a + b)
  S2(0,M,M,sR, r = a - b)   S2(0,S,S,C, r = a - b)   S2(0,S,S,sC, r = a + b)   S2(0,S,S,sS, r = a + b)
  S2(0,P,P,C, r = a + b)   S2(0,P,P,S, r = a + b)   S2(0,P,P,sR, r = a + b)   S2(0,P,P,sS, r = a + b)
  S2(0,C,sC,C, r = a + b)   S2(0,M,sC,M, r = a - b)   S2(0,P,sC,P, r = a - b)   S2(0,S,sR,S, r = a + b)
  S2(0,M,sM,C, r = a + b)   S2(0,M,sM,M, r = a - b)   S2(0,S,sS,C, r = a - b)   S2(0,S,sS,S, r = a - b)
  S2(0,P,sP,C, r = a - b)   S2(0,P,sP,M, r = a - b)   S2(0,P,sP,P, r = a - b)
}
}
