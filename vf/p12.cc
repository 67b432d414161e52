// Random numbers against a 64-bit model of the 47-bit congruential generator.
#include "stmt.h"
namespace QDP { namespace RNG { extern Seed ran_seed, ran_mult, ran_mult_n; extern LatticeSeed* lattice_ran_mult; } }
namespace vf {
static const uint64_t M47 = (1ull << 47) - 1;
static const uint64_t MULT = ((((1222ull << 12) | 1498) << 12 | 712) << 12) | 1645;
static uint64_t mul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b & M47); }
static uint64_t power(uint64_t a, uint64_t n) { uint64_t r = 1; for (; n; n >>= 1, a = mul(a, a)) if (n & 1) r = mul(r, a); return r; }
static Seed mkseed(uint64_t v) { Seed s; for (int i = 0; i < 4; ++i) s.elem().elem().elem(i).elem() = (int)(v >> (12 * i) & (i == 3 ? 2047 : 4095)); return s; }
template <class T> static uint64_t seedval(const PScalar<PSeed<T>>& s) { uint64_t v = 0; for (int i = 0; i < 4; ++i) v |= (uint64_t)(uint32_t)s.elem().elem(i).elem() << (12 * i); return v; }
static uint64_t val(const Seed& s) { return seedval(s.elem()); }
static uint64_t cur() { Seed s; RNG::savern(s); return val(s); }
static std::vector<uint64_t>& sitemult() { static std::vector<uint64_t> v; if (v.empty()) { v.resize(geo().vol); uint64_t m = 1; for (auto& x : v) x = m = mul(m, MULT); } return v; }
static uint64_t multn() { return power(MULT, geo().vol + 1); }
// uniform words of one object starting from state s, with the given step
template <class T> static std::vector<uint64_t> stream(uint64_t s, uint64_t step) { std::vector<uint64_t> v(words_of<T>()); for (auto& x : v) { x = s; s = mul(s, step); } return v; }
template <class T> static void check_uniform(Case& c, T& e, const std::vector<uint64_t>& st, const std::string& where) {
  typedef typename Dim<T>::word W; size_t k = 0;
  auto one = [&](W got) { ld want = std::ldexp((ld)st[k], -47); if (!(std::fabs((ld)got - want) <= std::ldexp(1.0L, -23) * std::max(want, std::ldexp(1.0L, -23)))) { std::ostringstream o; o.precision(12); o << where << " word " << k << ": got " << (double)got << ", the generator gives " << (double)want; c.fail("uniform", o.str()); } ++k; };
  walk(e, Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { one(re); if (im) one(*im); });
}
template <class T> static void check_gauss(Case& c, T& e, const std::vector<uint64_t>& s1, const std::vector<uint64_t>& s2, const std::string& where) {
  typedef typename Dim<T>::word W; size_t k = 0;
  walk(e, Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) {
    ld u = std::ldexp((ld)s1[k], -47), v = std::ldexp((ld)s2[k], -47); const ld d = std::ldexp(1.0L, -23);
    if (u > 4 * d) {
      auto R = [](ld x) { return x >= 1 ? 0.0L : std::sqrt(-2 * std::log(x)); };
      ld r = R(u), slack = R(u * (1 - d)) - R(u * (1 + d)) + r * 8e-6L + 1e-6L, th = 2 * 3.14159265358979323846L * v;
      bool ok = std::fabs((ld)re - r * std::cos(th)) <= slack && (!im || std::fabs((ld)*im - r * std::sin(th)) <= slack);
      if (!ok) { std::ostringstream o; o.precision(9); o << where << " word " << k << ": got (" << (double)re << "," << (im ? (double)*im : 0.) << "), Box-Muller of the uniforms gives (" << (double)(r * std::cos(th)) << "," << (double)(r * std::sin(th)) << ")"; c.fail("gaussian", o.str()); }
    }
    k += im ? 2 : 1; });
}
struct Hist { uint64_t s; std::vector<std::pair<uint64_t, Seed>> saved; };
static void expect(Case& c, Hist& h, const std::string& after) { uint64_t g = cur(); if (g != h.s) c.fail("seed", VF_STR("the seed after " << after << " is " << g << ", expected " << h.s)); }
template <class D> void lat(Case& c, Hist& h, const char* nm) {
  typedef typename Obj<D>::elem T; Sub sub = draw_subset(c); D d; fill(d, c.seed(), 1); auto before = image(d);
  int op = (int)c.below(6); bool g = op >= 3; bool wholeop = op % 3 == 0; if (wholeop) sub = whole();
  std::string what = std::string(g ? "gaussian(" : "random(") + nm + (op % 3 == 0 ? ")" : op % 3 == 1 ? ",s)" : "[s])"); c.note(what + " on " + sub.name);
  switch (op) { case 0: random(d); break; case 1: random(d, sub.s); break; case 2: random(d[sub.s]); break; case 3: gaussian(d); break; case 4: gaussian(d, sub.s); break; default: gaussian(d[sub.s]); }
  uint64_t step = multn(), n = words_of<T>(), adv = power(step, n), s1 = h.s, s2 = mul(h.s, adv);
  for (int l = 0; l < geo().vol; ++l) if (sub.in[l]) {
    auto a = stream<T>(mul(s1, sitemult()[l]), step); std::string w = what + " " + where_str(l, Ix{0, 0, 0, 0});
    if (!g) check_uniform(c, Obj<D>::at(d, l), a, w); else check_gauss(c, Obj<D>::at(d, l), a, stream<T>(mul(s2, sitemult()[l]), step), w); }
  check_untouched(c, d, before, sub.in, "offsubset");
  h.s = g ? mul(s2, adv) : s2; expect(c, h, what); if (sub.count) c.nontrivial();
}
template <class D> void sca(Case& c, Hist& h, const char* nm) {
  typedef typename Obj<D>::elem T; D d; bool g = c.chance(1, 3); std::string what = std::string(g ? "gaussian(" : "random(") + nm + ")"; c.note(what);
  uint64_t n = words_of<T>(), adv = power(MULT, n), s1 = h.s, s2 = mul(h.s, adv);
  if (g) { gaussian(d); check_gauss(c, d.elem(), stream<T>(mul(s1, MULT), MULT), stream<T>(mul(s2, MULT), MULT), what); h.s = mul(s2, adv); }
  else { random(d); check_uniform(c, d.elem(), stream<T>(mul(s1, MULT), MULT), what); h.s = s2; }
  expect(c, h, what); c.nontrivial();
}
static void step_fill(Case& c, Hist& h) {
  switch (c.below(19)) {
    case 0: lat<R>(c, h, "R"); break; case 1: lat<C>(c, h, "C"); break; case 2: lat<M>(c, h, "M"); break; case 3: lat<F>(c, h, "F"); break; case 4: lat<V>(c, h, "V"); break; case 5: lat<P>(c, h, "P"); break;
    case 6: lat<S>(c, h, "S"); break; case 7: lat<RD>(c, h, "RD"); break; case 8: lat<MD>(c, h, "MD"); break; case 9: lat<FD>(c, h, "FD"); break; case 10: lat<H>(c, h, "H"); break; case 11: lat<X>(c, h, "X"); break; case 12: lat<RF>(c, h, "RF"); break;
    case 13: sca<sR>(c, h, "Real"); break; case 14: sca<sC>(c, h, "Complex"); break; case 15: sca<sM>(c, h, "ColorMatrix"); break; case 16: sca<sRD>(c, h, "RealD"); break; case 17: sca<sF>(c, h, "Fermion"); break; default: sca<sCD>(c, h, "ComplexD");
  }
}
VF_TEST("history", 12) {
  Hist h; h.s = cur(); 
  if (c.chance(1, 2)) { h.s = (c.bits() & M47) | 1; RNG::setrn(mkseed(h.s)); c.note("seed " + std::to_string(h.s)); } else { Seed s = 11; RNG::setrn(s); h.s = 11; }
  int n = 2 + (int)c.below(7);
  for (int i = 0; i < n; ++i) switch (c.below(6)) {
    case 0: { Seed s; RNG::savern(s); VF_CHECK(c, val(s) == h.s, "savern", "savern returned " << val(s) << ", expected " << h.s); h.saved.push_back({h.s, s}); c.note("save"); break; }
    case 1: if (!h.saved.empty()) { auto& p = h.saved[c.below(h.saved.size())]; RNG::setrn(p.second); h.s = p.first; c.note("restore"); expect(c, h, "restoring a saved seed"); } break;
    case 2: { uint64_t v = c.chance(1, 2) ? c.below(1ull << 31) : c.bits() & M47; v |= 1; if (v < (1ull << 31)) { Seed s = (int)v; RNG::setrn(s); } else RNG::setrn(mkseed(v)); h.s = v & M47; c.note("setrn(" + std::to_string(v) + ")"); expect(c, h, "setrn"); break; }
    default: step_fill(c, h);
  }
}
// the same stream again after restoring the seed, bit for bit, whatever happened in between
VF_TEST("replay", 3) {
  uint64_t v = (c.bits() & M47) | 1; RNG::setrn(mkseed(v)); Seed s0; RNG::savern(s0); c.note("seed " + std::to_string(v));
  F f1; M m1; R r1; Real a1; gaussian(f1); random(m1); random(a1); random(r1); Seed e1; RNG::savern(e1);
  Hist h; h.s = cur(); int n = (int)c.below(4); for (int i = 0; i < n; ++i) step_fill(c, h);
  RNG::setrn(s0); F f2; M m2; R r2; Real a2; 
  Sub sub = draw_subset(c); f2 = zero; m2 = zero; r2 = zero; bool subs = c.chance(1, 2);
  if (subs) { gaussian(f2, sub.s); random(m2, sub.s); } else { gaussian(f2); random(m2); sub = whole(); }
  random(a2); random(r2); Seed e2; RNG::savern(e2);
  VF_CHECK(c, val(e1) == val(e2), "seed", "the final seed differs on replay");
  VF_CHECK(c, bits_eq(a1.elem(), a2.elem()), "scalar", "a scalar draw differs on replay");
  for (int l = 0; l < geo().vol; ++l) { if (sub.in[l] && (!bits_eq(Obj<F>::at(f1, l), Obj<F>::at(f2, l)) || !bits_eq(Obj<M>::at(m1, l), Obj<M>::at(m2, l)))) c.fail("replay", "a field differs on replay at " + where_str(l, Ix{0, 0, 0, 0})); if (!bits_eq(Obj<R>::at(r1, l), Obj<R>::at(r2, l))) c.fail("replay", "a later field differs on replay at " + where_str(l, Ix{0, 0, 0, 0})); }
  c.nontrivial();
}
VF_TEST("initial seed") { RNG::initDefaultRNG(); VF_CHECK(c, cur() == 11, "seed", "the default seed is " << cur()); Hist h; h.s = 11; step_fill(c, h); }
VF_TEST("seed algebra", 2) {
  uint64_t a = c.bits() & M47, b = c.chance(1, 8) ? a : c.bits() & M47; if (c.chance(1, 4)) a = c.below(5000); if (c.chance(1, 6)) a |= 0x7ffffffff000ull; Seed sa = mkseed(a), sb = mkseed(b), r; int i = (int)c.below(1u << 30), k = (int)c.below(13); c.note(std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(i) + " " + std::to_string(k));
  r = sa * sb; VF_CHECK(c, val(r) == mul(a, b), "mul", "seed product " << val(r) << " instead of " << mul(a, b));
  r = sa | sb; VF_CHECK(c, val(r) == (a | b), "or", "seed or"); r = sa | Integer(i); VF_CHECK(c, val(r) == (a | (uint64_t)i), "or", "seed or integer");
  r = sa << k; VF_CHECK(c, val(r) == (a << k & M47), "shift", a << " << " << k << " gave " << val(r)); 
  r = i; VF_CHECK(c, val(r) == (uint64_t)i, "assign", "seed = " << i << " gave " << val(r)); Seed q = i; VF_CHECK(c, val(q) == (uint64_t)i, "assign", "Seed(" << i << ") gave " << val(q));
  VF_CHECK(c, toBool(sa == sb) == (a == b) && toBool(sa != sb) == (a != b), "compare", "seed comparison of " << a << " and " << b);
  Real u = seedToFloat(sa); ld w = std::ldexp((ld)a, -47), g = toDouble(u); VF_CHECK(c, std::fabs(g - w) <= std::ldexp(w, -22), "float", "seedToFloat(" << a << ") gave " << (double)g << " instead of " << (double)w);
  LatticeSeed la, lb, lr; uint64_t sd = c.seed(); auto at = [&](LatticeSeed& x, int l) -> auto& { return Obj<LatticeSeed>::at(x, l); };
  for (int l = 0; l < geo().vol; ++l) { at(la, l) = mkseed(site_hash(sd, l) & M47).elem(); at(lb, l) = mkseed(site_hash(sd + 1, l) & M47).elem(); }
  lr = la * lb; for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, seedval(at(lr, l)) == mul(site_hash(sd, l) & M47, site_hash(sd + 1, l) & M47), "latmul", "lattice seed product at site " << l);
  lr = la * sa; for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, seedval(at(lr, l)) == mul(site_hash(sd, l) & M47, a), "latmul", "lattice seed times seed at site " << l);
  R f; f = seedToFloat(la); for (int l = 0; l < geo().vol; ++l) { ld w = std::ldexp((ld)(site_hash(sd, l) & M47), -47), g = Obj<R>::at(f, l).elem().elem().elem(); VF_CHECK(c, std::fabs(g - w) <= std::ldexp(w, -22), "latfloat", "seedToFloat of a lattice seed at site " << l); }
  LatticeBoolean m; fill(m, c.seed(), 2); lr = lb; copymask(lr, m, la); for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, seedval(at(lr, l)) == (site_hash(Obj<LatticeBoolean>::at(m, l).elem().elem().elem() ? sd : sd + 1, l) & M47), "copymask", "copymask of seeds at site " << l);
  c.nontrivial();
}
}
