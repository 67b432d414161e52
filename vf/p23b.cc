// Quark contractions.
#include "eps.h"
#include "dirac.h"
namespace vf {
#define QC(N) S2(0,P,P,P, r = quarkContract##N(a, b)) S2(0,P,P,P, r += quarkContract##N(a, b)) S2(0,P,P,P, r -= quarkContract##N(b, a)) S1(0,P,P, r = quarkContract##N(a, a)) S2(0,P,P,P, r = quarkContract##N(a + b, b)) S2(0,P,P,P, r = quarkContract##N(a, adj(b))) S2(0,P,P,P, r = quarkContract##N(a - b, -b)) S3(0,P,M,P,P, r = quarkContract##N(a * b, e)) S2(0,P,sP,P, r = quarkContract##N(a, b)) S2(0,P,P,sP, r = quarkContract##N(a, b)) S2(0,sP,sP,sP, r = quarkContract##N(a, b)) S2(0,M,P,P, r = traceSpin(quarkContract##N(a, b))) S2(0,S,P,P, r = traceColor(quarkContract##N(a, b))) S2(0,C,P,P, r = trace(quarkContract##N(a, b))) S3(0,P,P,P,C, r = e * quarkContract##N(a, b)) S2(0,PD,PD,PD, r = quarkContract##N(a, b)) S2(0,PF,PF,PF, r = quarkContract##N(a, b)) S2(0,PD,PF,PD, r = quarkContract##N(a, b)) S3(0,P,P,P,P, r = e * quarkContract##N(a, b))
VF_TABLE(q13) { QC(13) } VF_TABLE(q14) { QC(14) } VF_TABLE(q23) { QC(23) } VF_TABLE(q24) { QC(24) } VF_TABLE(q12) { QC(12) } VF_TABLE(q34) { QC(34) }
VF_TABLE(more) {
  S2(0,M,P,P, r += traceSpin(quarkContract13(a, b))) S2(0,M,P,P, r = traceSpin(quarkContract13(a + b, b))) S2(0,M,P,P, r = traceSpin(quarkContract13(a, adj(b)))) S2(0,M,P,P, r = adj(traceSpin(quarkContract13(a, b)))) S2(0,M,sP,P, r = traceSpin(quarkContract13(a, b))) S2(0,sM,sP,sP, r = traceSpin(quarkContract13(a, b))) S3(0,P,P,P,P, r = e * traceSpin(quarkContract13(a, b))) S3(0,S,P,P,P, r = traceColor(e * traceSpin(quarkContract13(a, b)))) S3(0,C,P,P,P, r = trace(e * traceSpin(quarkContract13(a, b)))) S3(0,C,P,P,P, r = trace(traceColor(e * traceSpin(quarkContract13(a, b))))) S3(0,C,P,P,P, r = trace(e * quarkContract24(a, b))) S3(0,C,P,P,P, r = trace(quarkContract24(a, b) * e)) S3(0,C,P,P,P, r = trace(quarkContract24(e, a * b)))
  S2(0,MD,PD,PD, r = traceSpin(quarkContract13(a, b)))
}
}
