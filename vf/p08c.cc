// P08: the vector kernels behind the projections
#include "proj.h"
#ifndef VF_AGG
#if QDP_USE_SSE == 1
#include "scalarsite_sse/sse_spin_proj_inlines.h"
#include "scalarsite_sse/sse_spin_recon_inlines.h"
#else
#include "scalarsite_generic/generic_spin_proj_inlines.h"
#include "scalarsite_generic/generic_spin_recon_inlines.h"
#endif
#endif
namespace vf {
#if QDP_USE_SSE == 1 && !defined(VF_AGG)
typedef float KW;
#else
typedef REAL KW;
#endif
typedef void (*Kern)(const KW*, KW*, unsigned int);
struct Ent { const char* n; Kern p, r, a; };
#define KE(D, S) {#D #S, inlineSpinProjDir##D##S, inlineSpinReconDir##D##S, inlineAddSpinReconDir##D##S}
static const Ent kern[8] = {KE(0, Plus), KE(0, Minus), KE(1, Plus), KE(1, Minus), KE(2, Plus), KE(2, Minus), KE(3, Plus), KE(3, Minus)};
static Ten from(const KW* p, int ns) { Ten t(ns, 1, 3, 1); for (int i = 0; i < ns; ++i) for (int k = 0; k < 3; ++k) t.at(i, 0, k, 0) = Num(p[(i * 3 + k) * 2], p[(i * 3 + k) * 2 + 1]); return t; }
VF_TEST("spin kernels", 6) {
  int e = (int)c.below(8), op = (int)c.below(3), n = 1 + (int)c.below(9); uint64_t sd = c.seed(); int kind = (int)c.below(4);
  c.note(std::string("kernel ") + kern[e].n + " op " + std::to_string(op) + " n=" + std::to_string(n));
  int ns = op == 0 ? 4 : 2, nd = op == 0 ? 2 : 4, gap = 64;
  std::vector<KW> sb(n * ns * 6 + 2 * gap + 16), db(n * nd * 6 + 2 * gap + 16);
  auto al = [&](std::vector<KW>& v) { KW* p = &v[gap / 2]; while ((uintptr_t)p & 15) ++p; return p; };
  KW *src = al(sb), *dst = al(db); uint64_t k = 0;
  for (auto& x : sb) x = (KW)value(sd, kind, k++); for (auto& x : db) x = (KW)value(sd + 1, 1, k++);
  auto s0 = sb, d0 = db; const KW* dst0 = &d0[dst - &db[0]];
  (op == 0 ? kern[e].p : op == 1 ? kern[e].r : kern[e].a)(src, dst, n);
  VF_CHECK(c, !memcmp(&sb[0], &s0[0], sb.size() * sizeof(KW)), "operand", "the kernel changed its source");
  for (size_t i = 0; i < db.size(); ++i) { long o = (long)i - (dst - &db[0]); if (o < 0 || o >= n * nd * 6) VF_CHECK(c, !memcmp(&db[i], &d0[i], sizeof(KW)), "overrun", "the kernel wrote at offset " << o << " of a destination of " << n * nd * 6 << " words"); }
  for (int v = 0; v < n; ++v) {
    Ten a = from(src + v * ns * 6, ns), g = from(dst + v * nd * 6, nd), w = op == 0 ? proj_ref(a, e / 2, e % 2 ? -1 : 1) : recon_ref(a, e / 2, e % 2 ? -1 : 1);
    if (op == 2) w = w + from(dst0 + v * nd * 6, nd);
    for (size_t i = 0; i < w.v.size(); ++i) VF_CHECK(c, std::fabs(w.v[i].re - g.v[i].re) + std::fabs(w.v[i].im - g.v[i].im) <= 8 * eps_of<KW>() * w.v[i].m + 1e-30, "value", "vector " << v << " component " << i << " is " << (double)g.v[i].re << "," << (double)g.v[i].im << " not " << (double)w.v[i].re << "," << (double)w.v[i].im);
  }
  c.nontrivial(n > 1);
}
}
