// Plain C++ stand-ins for the libintrin submodule, which is empty here, so that
// QDP++'s own single-precision SSE code can be compiled and tested.
#ifndef VF_INTRIN_H
#define VF_INTRIN_H
struct vf_cf { float re, im; };
struct su3_matrixf { vf_cf e[3][3]; };
struct su3_vectorf { vf_cf c[3]; };
struct half_wilson_vectorf { su3_vectorf h[2]; };
static inline vf_cf vf_dot(const vf_cf* a, int sa, bool ca, const vf_cf* b, int sb, bool cb) {
  vf_cf r = {0, 0};
  for (int k = 0; k < 3; ++k) {
    vf_cf x = a[k * sa], y = b[k * sb]; if (ca) x.im = -x.im; if (cb) y.im = -y.im;
    r.re += x.re * y.re - x.im * y.im; r.im += x.re * y.im + x.im * y.re;
  }
  return r;
}
static inline void intrin_sse_mult_su3_nn(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.e[i][j] = vf_dot(&a->e[i][0], 1, false, &b->e[0][j], 3, false); *c = t; }
static inline void intrin_sse_mult_su3_na(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.e[i][j] = vf_dot(&a->e[i][0], 1, false, &b->e[j][0], 1, true); *c = t; }
static inline void intrin_sse_mult_su3_an(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.e[i][j] = vf_dot(&a->e[0][i], 3, true, &b->e[0][j], 3, false); *c = t; }
static inline void intrin_sse_mult_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_vectorf t; for (int i = 0; i < 3; ++i) t.c[i] = vf_dot(&a->e[i][0], 1, false, b->c, 1, false); *c = t; }
static inline void intrin_sse_mult_adj_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_vectorf t; for (int i = 0; i < 3; ++i) t.c[i] = vf_dot(&a->e[0][i], 3, true, b->c, 1, false); *c = t; }
static inline void intrin_sse_mult_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { for (int s = 0; s < 2; ++s) intrin_sse_mult_su3_mat_vec(a, &b->h[s], &c->h[s]); }
static inline void intrin_sse_mult_adj_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { for (int s = 0; s < 2; ++s) intrin_sse_mult_adj_su3_mat_vec(a, &b->h[s], &c->h[s]); }
static inline void intrin_sse_add_su3_vector(su3_vectorf* a, su3_vectorf* b, su3_vectorf* c) { for (int i = 0; i < 3; ++i) { c->c[i].re = a->c[i].re + b->c[i].re; c->c[i].im = a->c[i].im + b->c[i].im; } }
#endif
