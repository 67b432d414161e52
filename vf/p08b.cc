// P08: projections fused with links and shifts, and the run-time forms
#include "proj.h"
namespace vf {
VF_TABLE(fused) {
  PJ_(H,M,F, r = adj(a) * PR(b)) PJ_(F,M,H, r = RC(a * b)) PJ_(H,M,F, r = a * PR(b)) PJ_(F,M,H, r = RC(adj(a) * b)) PJ_(F,M,H, r += RC(a * b)) PJ_(F,M,H, r -= RC(a * b)) PJ_(H,M,F, r += adj(a) * PR(b)) PJ_(H,M,F, r -= adj(a) * PR(b))
  PJ_(F,M,F, r = RC(a * PR(b))) PJ_(F,M,F, r = RC(adj(a) * PR(b))) PJ_(F,M,F, r += RC(adj(a) * PR(b))) PJ_(F,M,F, r = RC(a * shift(PR(b), g_sg, g_mu))) PJ_(F,M,F, r += RC(shift(adj(a) * PR(b), g_sg, g_mu))) PJ_(F,M,F, r = b + RC(a * PR(b)))
  PJ_(F,F,F, r = RC(shift(PR(a), g_sg, g_mu))) PJ_(H,F,F, r = PR(shift(a, g_sg, g_mu))) PJ_(H,F,F, r = shift(PR(a), g_sg, g_mu)) PJ_(H,F,C, r = b * PR(a)) PJ_(H,M,H, r = a * b) PJ_(H,M,H, r = adj(a) * b)
#ifndef VF_AGG     // the fused kernels take the base precision only
  PJ_(HD,MD,FD, r = adj(a) * PR(b)) PJ_(FD,MD,HD, r = RC(a * b)) PJ_(FD,MD,HD, r += RC(a * b)) PJ_(FD,MD,FD, r = RC(a * PR(b)))
#endif
  PJ_(F,sM,F, r = RC(a * PR(b))) PJ_(H,sM,F, r = adj(a) * PR(b)) PJ_(F,sM,H, r = RC(a * b))
}
VF_TABLE(rt) {
#define RT(D, A, B, ...) add_pj<D, A, B>(#D "<" #A "," #B ": run-time " #__VA_ARGS__, [](auto&& r, auto& a, auto& b, auto, auto) { RtP PR{g_dir, g_sign}; RtR RC{g_dir, g_sign}; __VA_ARGS__; });
  RT(H,F,F, r = PR(a)) RT(F,H,H, r = RC(a)) RT(F,F,F, r = RC(PR(a))) RT(H,M,F, r = adj(a) * PR(b)) RT(F,H,H, r += RC(a)) RT(HD,FD,FD, r = PR(a)) RT(FD,HD,HD, r = RC(a)) RT(sH,sF,sF, r = PR(a)) RT(sF,sH,sH, r = RC(a))
}
}
