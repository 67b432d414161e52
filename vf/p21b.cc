// P21: programs under changing thread counts, in every layout and with every kernel option.
#include "prog.h"
namespace vf {
namespace {
template <class T> void start(Case& c, Pool& p) { for (int k = 0; k < 3; ++k) renew(c, p.get<T>(k), 3); }
template <class T> void all_same(Case& c, Pool& p, const char* nm) { for (int k = 0; k < 3; ++k) same(c, p.get<T>(k), std::string("at the end, ") + nm + std::to_string(k), "final"); }
template <class T> Held<T>& any(Case& c, Pool& p) { return p.get<T>((int)c.below(3)); }
// where, comparisons, copymask
template <class D> void masked(Case& c, Pool& p, const char* nm) {
  int i = (int)c.below(3); Held<D>& d = p.get<D>(i); Held<D>&u = p.get<D>((i + 1) % 3), &v = p.get<D>((i + 2) % 3); Held<R>&a = p.get<R>(0), &b = p.get<R>(1); Sub s = draw_subset(c); int op = (int)c.below(4), form = (int)c.below(3); c.note(std::string("masked ") + nm + " on " + s.name + ";");
  LatticeBoolean m; switch (op) { case 0: m = a.q > b.q; break; case 1: m = a.q <= b.q; break; case 2: m = a.q == b.q; break; default: m = a.q != b.q; }
  std::vector<char> in(geo().vol); for (int l = 0; l < geo().vol; ++l) { ld x = a.r.s[l].v[0].re, y = b.r.s[l].v[0].re; in[l] = op == 0 ? x > y : op == 1 ? x <= y : op == 2 ? x == y : x != y; }
  if constexpr (!std::is_same<D, P>::value) { if (form == 0) { d.q[s.s] = where(m, u.q, v.q); for (int l = 0; l < geo().vol; ++l) if (s.in[l]) d.r.s[l] = in[l] ? u.r.s[l] : v.r.s[l]; } }
  if (form == 1) { copymask(d.q, m, u.q); for (int l = 0; l < geo().vol; ++l) if (in[l]) d.r.s[l] = u.r.s[l]; }
  if (form == 2) { if (c.chance(1, 2)) { d.q[s.s] = zero; for (int l = 0; l < geo().vol; ++l) if (s.in[l]) d.r.s[l] = mapt(d.r.s[l], [](Num) { return Num(); }); } else { d.q[s.s] = u.q; for (int l = 0; l < geo().vol; ++l) if (s.in[l]) d.r.s[l] = u.r.s[l]; } }
  same(c, d, "masked");
}
template <class T> void reduce_(Case& c, Pool& p, const char* nm) {
  Held<T>&a = any<T>(c, p), &b = any<T>(c, p); Sub s = draw_subset(c); bool w = c.chance(1, 4); if (w) s = whole(); int op = (int)c.below(4); c.note(std::string("reduce") + std::to_string(op) + " " + nm + " on " + s.name + ";"); QRed q{w ? nullptr : &s.s}; RRed rr{w ? nullptr : &s.in}; const ld lim = 1 << 23;
  auto test = [&](auto&& got, const Ref& want) { if (!small_enough(want, lim)) return; auto g = got; compare(c, g, want, nullptr, std::string("reduction of ") + nm + " on " + s.name, 0, 1, "reduction"); };
  // the bound has to hold before the library is asked
  if (op == 0) { Ref x = rr.sum(a.r); if (small_enough(x, lim)) test(q.sum(a.q), x); }
  else if constexpr (!std::is_same<T, I>::value) {
    if (op == 1) { Ref x = rr.norm2(a.r); if (small_enough(x, lim)) test(q.norm2(a.q), x); } else if (op == 2) { Ref x = rr.ip(a.r, b.r); if (small_enough(x, lim)) test(q.ip(a.q, b.q), x); } else { Ref x = rr.ipr(a.r, b.r); if (small_enough(x, lim)) test(q.ipr(a.q, b.q), x); } }
  if (op == 0 && c.chance(1, 3)) { Set st; int n = 1 + (int)c.below(5); uint64_t sd = c.seed(); std::vector<int> col(geo().vol); for (int l = 0; l < geo().vol; ++l) col[l] = (int)(site_hash(sd, l) % n); st.make(FnSet([col](const Coord& x) { return col[lex_of(x)]; }, n)); bool ok = true; std::vector<Ref> want; for (int k = 0; k < n; ++k) { std::vector<char> in(geo().vol); for (int l = 0; l < geo().vol; ++l) in[l] = col[l] == k; want.push_back(sumref(a.r, &in)); ok = ok && small_enough(want.back(), lim); }
    if (ok) { auto g = sumMulti(a.q, st); VF_CHECK(c, g.size() == n, "sumMulti", "size"); for (int k = 0; k < n; ++k) compare(c, g[k], want[k], nullptr, std::string("sumMulti ") + nm, 0, 1, "sumMulti"); } }
}
struct PFn : MapFunc { std::vector<int> f; Coord operator()(const Coord& x, int) const { return mcoord(f[lex_of(x)]); } };
template <class T> void mapped(Case& c, Pool& p, const char* nm) {
  int i = (int)c.below(3); Held<T>&d = p.get<T>(i), &a = p.get<T>((i + 1) % 3); uint64_t s = c.seed(); PFn fn; for (int l = 0; l < geo().vol; ++l) fn.f.push_back((int)(site_hash(s, l) % geo().vol)); Map m; m.make(fn); Sub sub = draw_subset(c); c.note(std::string("map ") + nm + " on " + sub.name + ";");
  d.q[sub.s] = m(a.q); Ref src = mapref(a.r, fn.f); for (int l = 0; l < geo().vol; ++l) if (sub.in[l]) d.r.s[l] = src.s[l]; same(c, d, "map");
}
// the same fill, repeated from the same seed, under another thread count: bit for bit
template <class T> void refill(Case& c, Pool& p, const char* nm) {
  Held<T>& d = any<T>(c, p); T a, b; fill(a, c.seed(), 1); b = a; int k = (int)c.below(2); Sub sub = draw_subset(c); bool w = c.chance(1, 2); Seed s0, s1, s2; RNG::savern(s0); c.note(std::string(k ? "gaussian " : "random ") + nm + " twice;");
  auto go = [&](T& x) { if (w) { if (k) gaussian(x); else random(x); } else { if (k) gaussian(x[sub.s]); else random(x[sub.s]); } };
  go(a); RNG::savern(s1); RNG::setrn(s0); set_threads(c); go(b); RNG::savern(s2);
  for (int l = 0; l < geo().vol; ++l) if (!bits_eq(Obj<T>::at(a, l), Obj<T>::at(b, l))) c.fail("repeat", std::string("repeating ") + (k ? "gaussian" : "random") + " of " + nm + " from the same seed gives another value at " + where_str(l, Ix{0, 0, 0, 0}));
  VF_CHECK(c, !memcmp(&s1, &s2, sizeof s1), "repeat", "repeating a fill leaves another seed"); renew(c, d, 2);
}
void other(Case& c, Pool& p) {
  switch (c.below(5)) {
  case 0: switch (c.below(6)) { case 0: masked<R>(c, p, "R"); break; case 1: masked<M>(c, p, "M"); break; case 2: masked<F>(c, p, "F"); break; case 3: masked<C>(c, p, "C"); break; case 4: masked<V>(c, p, "V"); break; default: masked<P>(c, p, "P"); } break;
  case 1: case 2: switch (c.below(8)) { case 0: reduce_<R>(c, p, "R"); break; case 1: reduce_<C>(c, p, "C"); break; case 2: reduce_<M>(c, p, "M"); break; case 3: reduce_<F>(c, p, "F"); break; case 4: reduce_<V>(c, p, "V"); break; case 5: reduce_<P>(c, p, "P"); break; case 6: reduce_<H>(c, p, "H"); break; default: reduce_<I>(c, p, "I"); } break;
  case 3: switch (c.below(6)) { case 0: mapped<R>(c, p, "R"); break; case 1: mapped<M>(c, p, "M"); break; case 2: mapped<F>(c, p, "F"); break; case 3: mapped<I>(c, p, "I"); break; case 4: mapped<H>(c, p, "H"); break; default: mapped<P>(c, p, "P"); } break;
  default: switch (c.below(4)) { case 0: refill<R>(c, p, "R"); break; case 1: refill<M>(c, p, "M"); break; case 2: refill<F>(c, p, "F"); break; default: refill<C>(c, p, "C"); }
  }
}
void program(Case& c, int maxn) {
  threads_max(); Pool p; start<R>(c, p); start<C>(c, p); start<M>(c, p); start<V>(c, p); start<F>(c, p); start<P>(c, p); start<S>(c, p); start<H>(c, p); start<W>(c, p); start<I>(c, p); int n = 2 + (int)c.below(maxn), last = 0;
  for (int k = 0; k < n; ++k) { int t = set_threads(c); if (t != last && threads_max() > 1) c.note("[" + std::to_string(t) + " threads]"); last = t; if (c.chance(1, 4)) other(c, p); else steps()[c.below(steps().size())].f(c, p); }
  all_same<R>(c, p, "R"); all_same<C>(c, p, "C"); all_same<M>(c, p, "M"); all_same<V>(c, p, "V"); all_same<F>(c, p, "F"); all_same<P>(c, p, "P"); all_same<S>(c, p, "S"); all_same<H>(c, p, "H"); all_same<W>(c, p, "W"); all_same<I>(c, p, "I"); c.nontrivial(geo().vol > 1);
}
}
// The shares of the threads: whatever the number of sites and threads, they are intervals that contain every site once.
namespace { struct Share { std::vector<std::array<int, 3>>* got; int mark; }; void share(int lo, int hi, int me, Share* s) { if (s->mark == 77 && me >= 0 && me < (int)s->got->size()) { (*s->got)[me][0] = lo; (*s->got)[me][1] = hi; ++(*s->got)[me][2]; } } }
VF_TEST("share of each thread", 1) {
  int k = set_threads(c), m = threads_max(); c.note(std::to_string(k) + " threads");
  for (int i = 0, r = 1 + (int)c.below(12); i < r; ++i) {
    int64_t n = 0, top = 2147483647; switch (c.below(5)) { case 0: n = c.below(2 * m + 4); break; case 1: n = c.below(5000); break; case 2: n = c.range(1, top); break; case 3: n = top - (int64_t)c.below(40); break; default: n = top / (1 + (int64_t)c.below(m + 1)) + c.range(-3, 0); }
    std::vector<std::array<int, 3>> got(m, {0, 0, 0}); dispatch_to_threads<Share>((int)n, Share{&got, 77}, share); int64_t at = 0; std::vector<std::array<int, 3>> s; for (auto& g : got) { VF_CHECK(c, g[2] <= 1, "share", n << " sites: a thread was called " << g[2] << " times"); if (g[2] && g[0] != g[1]) s.push_back(g); }
    std::sort(s.begin(), s.end()); for (auto& g : s) { VF_CHECK(c, g[0] == at && g[1] > g[0], "share", n << " sites on " << k << " threads: a share is [" << g[0] << ", " << g[1] << ") where the next should begin at " << at); at = g[1]; } VF_CHECK(c, at == n, "share", n << " sites on " << k << " threads: the shares end at " << at);
    if (k > 1 && n > 0) c.nontrivial();
  }
  if (m == 1) c.nontrivial();
}
VF_TEST("program", 3) { program(c, 30); }
VF_TEST("long program") { program(c, 90); }
}
