// Every way to write a product or sum of two operands, with every choice of adjoints
#include "stmt.h"
namespace vf {
VF_TABLE(products_3) {
  S2(0,S,C,S, r = adj(a) * b)   S2(0,P,C,P, r = a * adj(b))   S2(0,C,C,sC, r = a * adj(b))   S2(0,M,C,sM, r = adj(a) * b)
  S2(0,S,C,sS, r = adj(a) * b)   S2(0,P,C,sP, r = adj(a) * b)   S2(0,F,C,F, r = adj(a) * b)   S2(0,H,H,C, r = a * b)
  S2(0,V,C,sV, r = adj(a) * b)   S2(0,F,sF,C, r = a * b)   S2(0,S,R,S, r = a * b)   S2(0,S,R,sS, r = a * b)
  S2(0,X,X,R, r = a * b)   S2(0,F,sF,R, r = a * b)   S2(0,M,M,C, r = a * adj(b))   S2(0,P,M,S, r = adj(a) * adj(b))
  S2(0,M,M,sC, r = a * adj(b))   S2(0,M,M,sM, r = adj(a) * adj(b))   S2(0,P,M,sS, r = adj(a) * adj(b))   S2(0,P,M,sP, r = adj(a) * adj(b))
  S2(0,S,S,C, r = adj(a) * b)   S2(0,P,S,M, r = a * adj(b))   S2(0,S,S,sC, r = a * b)   S2(0,S,S,sR, r = a * b)
  S2(0,P,S,sM, r = adj(a) * adj(b))   S2(0,S,S,sS, r = adj(a) * adj(b))   S2(0,P,S,sP, r = adj(a) * adj(b))   S2(0,W,S,sW, r = adj(a) * b)
  S2(0,P,P,C, r = adj(a) * adj(b))   S2(0,P,P,S, r = adj(a) * adj(b))   S2(0,P,P,sC, r = adj(a) * adj(b))   S2(0,P,P,sM, r = a * adj(b))
  S2(0,P,P,sS, r = adj(a) * adj(b))   S2(0,F,P,sF, r = a * b)   S2(0,C,sC,C, r = a * adj(b))   S2(0,M,sC,M, r = a * adj(b))
  S2(0,S,sC,S, r = a * adj(b))   S2(0,P,sC,P, r = adj(a) * adj(b))   S2(0,W,sC,W, r = a * b)   S2(0,H,sC,H, r = adj(a) * b)
  S2(0,X,X,sC, r = a * b)   S2(0,W,W,sR, r = a * b)   S2(0,X,X,sR, r = a * b)   S2(0,M,sM,C, r = adj(a) * adj(b))
  S2(0,P,sM,S, r = a * b)   S2(0,P,sM,P, r = adj(a) * b)   S2(0,H,sM,H, r = adj(a) * b)   S2(0,S,sS,C, r = adj(a) * b)
  S2(0,P,sS,M, r = a * b)   S2(0,S,sS,S, r = adj(a) * b)   S2(0,P,sS,P, r = a * adj(b))   S2(0,W,sS,W, r = adj(a) * b)
  S2(0,P,sP,C, r = adj(a) * adj(b))   S2(0,P,sP,M, r = a * adj(b))   S2(0,P,sP,S, r = a * adj(b))   S2(0,P,sP,P, r = adj(a) * adj(b))
  S2(0,S,C,S, r = a - b)   S2(0,C,C,sC, r = a - b)   S2(0,S,C,sS, r = a + b)   S2(0,M,R,M, r = a + b)
  S2(0,P,R,P, r = a - b)   S2(0,M,R,sM, r = a - b)   S2(0,P,R,sP, r = a - b)   S2(0,P,M,P, r = a - b)
  S2(0,M,M,sM, r = a + b)   S2(0,S,S,R, r = a + b)   S2(0,S,S,sC, r = a - b)   S2(0,S,S,sS, r = a - b)
  S2(0,P,P,R, r = a + b)   S2(0,P,P,S, r = a - b)   S2(0,P,P,sR, r = a - b)   S2(0,P,P,sS, r = a - b)
  S2(0,C,sC,R, r = a + b)   S2(0,S,sC,S, r = a + b)   S2(0,C,sR,C, r = a + b)   S2(0,S,sR,S, r = a - b)
  S2(0,M,sM,C, r = a - b)   S2(0,P,sM,P, r = a + b)   S2(0,S,sS,R, r = a + b)   S2(0,P,sS,P, r = a + b)
  S2(0,P,sP,R, r = a + b)   S2(0,P,sP,S, r = a + b)
}
}
